CONSTANTS Depth = 2
SPECIFICATION Spec
INVARIANTS ValidJson Laid
CHECK_DEADLOCK FALSE
