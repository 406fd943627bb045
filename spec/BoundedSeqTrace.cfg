SPECIFICATION TraceSpec
INVARIANT Inv
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
