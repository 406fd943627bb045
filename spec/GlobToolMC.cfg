SPECIFICATION Spec
CONSTANT MaxEntries = 2
INVARIANTS Counted Aligned Distinct Dots Shallow Accepted
CHECK_DEADLOCK FALSE
