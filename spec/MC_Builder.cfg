SPECIFICATION Spec
INVARIANT Inv
CONSTANT MaxLen = 2
CONSTANT Fields = {"token", "callback", "verifier", "nonce", "timestamp", "version"}
CHECK_DEADLOCK FALSE
