SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  WithHows = {"hquery"}
  WithStyles = {"reuse"}
  MaxAttacks = 2
  Kinds = {"hmac"}
