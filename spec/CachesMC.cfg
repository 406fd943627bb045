SPECIFICATION Spec
CONSTANTS
  Keys <- MCKeys
  Times <- MCTimes
  Prefixes <- MCPrefixes
INVARIANTS OneLeft IsNewest OthersStay
CHECK_DEADLOCK FALSE
