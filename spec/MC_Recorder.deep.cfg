SPECIFICATION Spec
INVARIANT Inv
PROPERTY Grows
CONSTANT Steps = 4
CHECK_DEADLOCK FALSE
