SPECIFICATION Spec
CONSTANTS
  Cfgs <- TheCfgs
  Reqs <- TheReqs
INVARIANTS Inv InvFeeding InvNoPanic
CHECK_DEADLOCK FALSE
