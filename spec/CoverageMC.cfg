SPECIFICATION Spec
INVARIANTS OrderFree Grows Unmarked Sums GateIsMinimum
CHECK_DEADLOCK FALSE
