SPECIFICATION Spec
CONSTANT MaxEntries = 3
INVARIANTS Counted Aligned Distinct Dots Shallow Accepted
CHECK_DEADLOCK FALSE
