SPECIFICATION Spec
INVARIANT Inv
CONSTANT MaxSteps = 3
CHECK_DEADLOCK FALSE
