SPECIFICATION Spec
INVARIANT Inv
CONSTANT Steps = 6
CHECK_DEADLOCK FALSE
