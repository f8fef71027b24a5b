SPECIFICATION Spec
INVARIANT Inv
VIEW View
CONSTANT MaxTampers = 2
CHECK_DEADLOCK FALSE
