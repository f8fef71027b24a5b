SPECIFICATION Spec
INVARIANT Inv
CONSTANT Steps = 5
CHECK_DEADLOCK FALSE
