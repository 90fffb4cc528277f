SPECIFICATION Spec
CONSTANTS Pre <- Pres
 Lead = {48, 49, 55, 56, 57, 97, 102, 65, 70}
 Len1 = {0, 1, 3, 4, 7, 8, 15, 16, 17}
 Bad = {32, 46, 71, 103, 47, 58, 64, 96, 120, 45}
INVARIANTS Emit
