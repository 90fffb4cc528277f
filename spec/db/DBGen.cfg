SPECIFICATION Spec
CONSTANTS Buckets = {"", "S", "SS"}
 Keys = {"kx", "ky"}
 Vals = {"", "v1", "v2"}
 Layers = 2
 D = 30
INVARIANTS Emit
