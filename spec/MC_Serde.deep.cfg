SPECIFICATION Spec
INVARIANT Inv
CONSTANT MaxLen = 4
CHECK_DEADLOCK FALSE
