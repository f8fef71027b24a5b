SPECIFICATION Spec
ALIAS Alias
CHECK_DEADLOCK TRUE
