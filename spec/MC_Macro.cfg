SPECIFICATION Spec
INVARIANT Inv
CONSTANT MaxLen = 2
CHECK_DEADLOCK FALSE
