SPECIFICATION Spec
CONSTANTS B = {0, 1, 127, 128, 255}
 N = 4
 Fill = {0, 255, 85}
 M = {1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 14, 15, 29, 30, 31, 32, 33, 61, 62, 63, 64, 125, 126, 127, 254, 255}
 Emitting = TRUE
INVARIANTS Emit
