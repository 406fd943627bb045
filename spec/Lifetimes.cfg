SPECIFICATION Spec
CONSTANT Places = {1, 2, 3}
INVARIANT Balance
CHECK_DEADLOCK FALSE
