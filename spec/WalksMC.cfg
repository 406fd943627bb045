SPECIFICATION Spec
CONSTANTS
  Trees <- MCTrees
INVARIANTS OnlyWanted ParentsFirst Complete NotBelow
PROPERTY Once
CHECK_DEADLOCK FALSE
