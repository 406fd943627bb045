SPECIFICATION Spec
CONSTANTS MaxN = 3
 Values = {1, 2, 3}
INVARIANT TypeOk
PROPERTY OneField
CHECK_DEADLOCK FALSE
