SPECIFICATION Spec
INVARIANT Inv
CONSTANT MaxLen = 3
CHECK_DEADLOCK FALSE
