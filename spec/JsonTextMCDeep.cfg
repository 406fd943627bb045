CONSTANTS
Depth = 2
MaxLen = 6
SPECIFICATION Spec
INVARIANTS Texts ReadsBack
CHECK_DEADLOCK FALSE
