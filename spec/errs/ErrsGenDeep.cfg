CONSTANTS
  Codes = {1, 26, 1004}
  Depth = 4
  Emitting = TRUE
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
