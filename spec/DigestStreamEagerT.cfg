SPECIFICATION Spec
CONSTANTS Streams = {s1, s2, s3}  B = 3  Lazy = FALSE  Bytes = {0}  MaxLen = 8  MaxChunk = 4
INVARIANTS TypeOK NoByteLostOrReordered FinalizeIsFunctionOfMessage
CHECK_DEADLOCK FALSE
