SPECIFICATION Spec
CONSTANTS
  Names <- MCNames
  Contents <- MCContents
  Algs <- MCAlgs
  MCTable <- Tab
INVARIANTS RoundTrip OtherAlgorithm StatusIsSilent StrictIsStricter
CHECK_DEADLOCK FALSE
