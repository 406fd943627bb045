SPECIFICATION Spec
CONSTANTS Ids = {1, 2}
 Ticks = 1
 MaxEnded = 2
INVARIANTS Once MovedNeverLogs InfOnlyAlways ZeroAlways OnceEach HandedOver
CHECK_DEADLOCK FALSE
