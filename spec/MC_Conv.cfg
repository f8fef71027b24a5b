SPECIFICATION Spec
INVARIANT Inv
CONSTANT Steps = 3
CHECK_DEADLOCK FALSE
