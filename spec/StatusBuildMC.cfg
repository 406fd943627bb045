CONSTANTS MaxSteps = 5
SPECIFICATION Spec
INVARIANTS KeepsCode OkIsOk Around KeepsPays
CHECK_DEADLOCK FALSE
