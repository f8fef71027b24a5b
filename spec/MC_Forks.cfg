SPECIFICATION Spec
INVARIANT Inv
PROPERTY Frame
CONSTANT Steps = 5
CHECK_DEADLOCK FALSE
