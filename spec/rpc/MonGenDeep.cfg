CONSTANTS
  N = 16
  Emitting = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
