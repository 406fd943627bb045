CONSTANTS MaxSteps = 7
SPECIFICATION Spec
INVARIANTS KeepsCode OkIsOk Around KeepsPays
CHECK_DEADLOCK FALSE
