SPECIFICATION TraceSpec
CONSTANTS MaxN = 40
 Values = {0}
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
