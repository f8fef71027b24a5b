SPECIFICATION Spec
INVARIANTS InvAgree InvThrough InvClock InvPrinted
CONSTANT MaxSteps = 2
CHECK_DEADLOCK FALSE
