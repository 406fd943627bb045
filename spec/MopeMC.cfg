SPECIFICATION Spec
CONSTANTS
  Tokens <- MCTokens
  MaxTokens = 3
  Data <- MCData
INVARIANTS Agrees Clean Plain Distinct
PROPERTIES Ends
CHECK_DEADLOCK FALSE
