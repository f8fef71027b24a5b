SPECIFICATION Spec
INVARIANT Inv
PROPERTY Grows
CONSTANT Steps = 3
CHECK_DEADLOCK FALSE
