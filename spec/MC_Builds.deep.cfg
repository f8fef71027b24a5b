SPECIFICATION Spec
INVARIANTS InvAgree InvThrough InvClock InvPrinted
CONSTANT MaxSteps = 3
CHECK_DEADLOCK FALSE
