SPECIFICATION Spec
CONSTANTS
  InitCaps <- McCaps
  Values = {1, 2}
INVARIANTS WithinCapacity TypeOK Frame Total
CHECK_DEADLOCK FALSE
