SPECIFICATION Spec
INVARIANT Inv
PROPERTY Frame
CONSTANT Steps = 6
CHECK_DEADLOCK FALSE
