SPECIFICATION Spec
INVARIANT Inv
VIEW View
ALIAS Alias
CHECK_DEADLOCK TRUE
