CONSTANTS
Depth = 2
MaxLen = 5
SPECIFICATION Spec
INVARIANTS Texts ReadsBack
CHECK_DEADLOCK FALSE
