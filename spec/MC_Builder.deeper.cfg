SPECIFICATION Spec
INVARIANT Inv
CONSTANT MaxLen = 4
CONSTANT Fields = {"token", "callback", "nonce", "version"}
CHECK_DEADLOCK FALSE
