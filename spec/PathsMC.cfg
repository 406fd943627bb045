SPECIFICATION Spec
CONSTANTS
  Alpha = {97, 46, 47, 92}
  Max = 5
INVARIANT Inv
CHECK_DEADLOCK FALSE
