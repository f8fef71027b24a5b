SPECIFICATION Spec
INVARIANT Inv
CONSTANT Steps = 4
CHECK_DEADLOCK FALSE
