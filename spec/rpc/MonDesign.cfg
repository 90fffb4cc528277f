CONSTANTS
  N = 5
  Emitting = FALSE
SPECIFICATION Spec
INVARIANT Right
PROPERTY Over
CHECK_DEADLOCK FALSE
