CONSTANTS
  Keys = {"k1", "k2", "kz"}
  Pws = {"p", "", "sp", "uni", "long", "nul"}
  MaxDmg = 1
  Emitting = TRUE
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
