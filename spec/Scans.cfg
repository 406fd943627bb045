SPECIFICATION Spec
CONSTANTS
  Values = {1, 2}
  NIter = 3
INVARIANTS InRange Independent
CHECK_DEADLOCK FALSE
