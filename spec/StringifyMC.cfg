CONSTANTS Depth = 1
SPECIFICATION Spec
INVARIANTS ValidJson Laid
CHECK_DEADLOCK FALSE
