CONSTANTS
  MaxPut = 6
  MaxSave = 3
  Emitting = TRUE
  Use <- Settings
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
