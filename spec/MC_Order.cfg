SPECIFICATION Spec
CONSTANTS
  Cfgs <- AllCfgs
  Events <- SomeEvents
  MaxSteps = 3
INVARIANTS Inv InvMisuse
CHECK_DEADLOCK FALSE
