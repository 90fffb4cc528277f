SPECIFICATION Spec
CONSTANTS B = {0, 1, 127, 128, 255}
 N = 3
 Fill = {0, 255, 85}
 M = {1, 2, 3, 4, 5, 6, 7, 8, 14, 15, 29, 30, 31, 62, 63, 126, 254}
 Emitting = TRUE
INVARIANTS Emit
