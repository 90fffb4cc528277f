CONSTANTS
  Codes = {1, 26, 1004}
  Depth = 3
  Emitting = TRUE
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
