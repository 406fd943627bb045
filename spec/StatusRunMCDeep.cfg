CONSTANTS MaxLen = 2
SPECIFICATION Spec
INVARIANTS Agrees Keeps
CHECK_DEADLOCK FALSE
