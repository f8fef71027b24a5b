SPECIFICATION Spec
CONSTANT Steps = 3
INVARIANT Inv
PROPERTY Stays
CHECK_DEADLOCK FALSE
