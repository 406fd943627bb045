SPECIFICATION Spec
CONSTANTS NSink = 2
 MaxLen = 2
INVARIANTS Once OneLineEach EndsOnce
CHECK_DEADLOCK FALSE
