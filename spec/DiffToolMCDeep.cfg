SPECIFICATION Spec
CONSTANT MaxFlags = 4
INVARIANTS Plain Answers Explicit Swapped Once
CHECK_DEADLOCK FALSE
