CONSTANTS MaxLen = 1
SPECIFICATION Spec
INVARIANTS Agrees Keeps
CHECK_DEADLOCK FALSE
