SPECIFICATION Spec
INVARIANT Inv
CONSTANT MaxSteps = 2
CHECK_DEADLOCK FALSE
