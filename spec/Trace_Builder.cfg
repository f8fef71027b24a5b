SPECIFICATION Spec
PROPERTY Frame
VIEW View
ALIAS Alias
CHECK_DEADLOCK TRUE
