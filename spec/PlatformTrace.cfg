SPECIFICATION Spec
CONSTANTS
  KeepMs = 60000
  SlackMs = 3000
INVARIANT Conforms
CHECK_DEADLOCK FALSE
