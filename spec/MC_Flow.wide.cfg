SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  WithHows = {"hform", "hquery", "form", "query"}
  WithStyles = {"reuse"}
  MaxAttacks = 1
  Kinds = {"hmac"}
