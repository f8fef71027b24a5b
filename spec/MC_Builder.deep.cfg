SPECIFICATION Spec
INVARIANT Inv
CONSTANT MaxLen = 3
CONSTANT Fields = {"token", "callback", "verifier", "nonce", "timestamp", "version"}
CHECK_DEADLOCK FALSE
