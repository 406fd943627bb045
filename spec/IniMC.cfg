SPECIFICATION Spec
CONSTANTS
  Texts <- MCTexts
  Names <- MCNames
INVARIANTS OnePerKey LastWins RoundTrip Clean
PROPERTY Others
CHECK_DEADLOCK FALSE
