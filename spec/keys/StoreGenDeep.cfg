CONSTANTS
  Keys = {"k1", "k2", "kz"}
  Pws = {"p", "", "sp", "uni", "long", "nul"}
  MaxDmg = 2
  Emitting = TRUE
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
