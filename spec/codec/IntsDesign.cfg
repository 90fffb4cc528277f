SPECIFICATION Spec
CONSTANTS B = {0, 1, 127, 128, 255}
 N = 4
 Fill = {0, 255, 85}
 M = {1, 2, 3, 8}
 Emitting = FALSE
INVARIANTS Faithful
