SPECIFICATION TraceSpec
CONSTANTS Streams = {0, 1, 2}  B = 64  Lazy = FALSE  Bytes = {}  MaxLen = 0  MaxChunk = 0
INVARIANT Inv
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
