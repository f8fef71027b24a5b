SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  WithHows = {"hquery", "form"}
  WithStyles = {"reuse"}
  MaxAttacks = 1
  Kinds = {"hmac"}
