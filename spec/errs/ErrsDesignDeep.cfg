CONSTANTS
  Codes = {1, 26}
  Depth = 5
  Emitting = FALSE
SPECIFICATION Spec
INVARIANT Told
PROPERTY Keeps
CHECK_DEADLOCK FALSE
