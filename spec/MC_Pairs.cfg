SPECIFICATION Spec
INVARIANT Inv
VIEW View
CONSTANT MaxTampers = 1
CHECK_DEADLOCK FALSE
