SPECIFICATION Spec
CONSTANTS
  Alpha = {97, 47, 42, 63, 92, 91, 93, 33, 58}
  Max = 4
  TextAlpha = {97, 47, 33}
  TextMax = 3
INVARIANT Inv
CHECK_DEADLOCK FALSE
