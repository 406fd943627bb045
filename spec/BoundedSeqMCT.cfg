SPECIFICATION Spec
CONSTANTS
  InitCaps <- McCapsT
  Values = {1, 2}
INVARIANTS WithinCapacity TypeOK Frame Total
CHECK_DEADLOCK FALSE
