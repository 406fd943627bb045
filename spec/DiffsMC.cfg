SPECIFICATION Spec
CONSTANTS
  Texts <- MCTexts
  Sizes <- MCSizes
INVARIANTS Patched AllShown Bound
CHECK_DEADLOCK FALSE
