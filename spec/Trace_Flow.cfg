SPECIFICATION Spec
INVARIANT InvServer
VIEW View
ALIAS Alias
CHECK_DEADLOCK TRUE
