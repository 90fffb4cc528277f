CONSTANTS
  Keys = {"k1", "k2", "k3"}
  Msgs = {"h32", "h1", "h20", "hz", "hff"}
  Depth = 4
  Emitting = TRUE
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
