SPECIFICATION Spec
CONSTANTS
  Cfgs <- AllCfgs
  Events <- SomeEvents
  MaxSteps = 4
INVARIANTS Inv InvMisuse
CHECK_DEADLOCK FALSE
