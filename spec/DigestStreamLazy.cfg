SPECIFICATION Spec
CONSTANTS Streams = {s1, s2}  B = 3  Lazy = TRUE  Bytes = {0, 1}  MaxLen = 5  MaxChunk = 4
INVARIANTS TypeOK NoByteLostOrReordered FinalizeIsFunctionOfMessage
CHECK_DEADLOCK FALSE
