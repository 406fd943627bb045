SPECIFICATION Spec
CONSTANT MaxFlags = 3
INVARIANTS Plain Answers Explicit Swapped Once
CHECK_DEADLOCK FALSE
