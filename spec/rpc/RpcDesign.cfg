CONSTANT Emitting = FALSE
SPECIFICATION Spec
INVARIANT Sound
CHECK_DEADLOCK FALSE
