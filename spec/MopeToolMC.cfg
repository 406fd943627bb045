SPECIFICATION Spec
CONSTANT MaxItems = 3
INVARIANTS OneByOne Silent Plain ShownA OnlyOnce ShownS ToFile Flags
PROPERTIES Sticky
CHECK_DEADLOCK FALSE
