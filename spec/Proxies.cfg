SPECIFICATION Spec
CONSTANTS
  Values = {1, 2, 3}
  MaxLen = 5
INVARIANT Laws
CHECK_DEADLOCK FALSE
