SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  WithHows = {"hform", "hquery", "form", "query"}
  WithStyles = {"fresh", "reuse"}
  MaxAttacks = 0
  Kinds = {"hmac", "plaintext"}
