SPECIFICATION Spec
CONSTANT Steps = 2
INVARIANT Inv
PROPERTY Stays
CHECK_DEADLOCK FALSE
