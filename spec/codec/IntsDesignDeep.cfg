SPECIFICATION Spec
CONSTANTS B = {0, 1, 127, 128, 255}
 N = 5
 Fill = {0, 255, 85}
 M = {1, 2, 3, 4, 5, 6, 8, 16, 32, 64}
 Emitting = FALSE
INVARIANTS Faithful
