CONSTANTS
  Keys = {"k1", "k2"}
  Pws = {"a", ""}
  MaxDmg = 2
  Emitting = FALSE
SPECIFICATION Spec
INVARIANT OnlyWithPassword
CHECK_DEADLOCK FALSE
