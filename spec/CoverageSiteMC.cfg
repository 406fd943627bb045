SPECIFICATION Spec
CONSTANTS
  Targets <- MCTwo
  Runs <- MCRuns
INVARIANTS Newest
PROPERTY OnlyForward
CHECK_DEADLOCK FALSE
