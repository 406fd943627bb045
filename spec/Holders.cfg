SPECIFICATION Spec
CONSTANTS
  Values = {1, 2}
  NHold = 3
  NCell = 2
  InitLeft = 2
INVARIANTS TypeOK Frame Total
CHECK_DEADLOCK FALSE
