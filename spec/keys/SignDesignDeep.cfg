CONSTANTS
  Keys = {"k1", "k2"}
  Msgs = {"h32", "h1"}
  Depth = 5
  Emitting = FALSE
SPECIFICATION Spec
INVARIANTS Sound One Whole
CHECK_DEADLOCK FALSE
