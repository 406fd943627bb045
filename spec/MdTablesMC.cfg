SPECIFICATION Spec
INVARIANTS Accepted Stable SameCells SameSides SameColumns
CHECK_DEADLOCK FALSE
