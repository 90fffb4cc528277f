CONSTANTS
  N = 6
  Emitting = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
