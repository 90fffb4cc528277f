SPECIFICATION Spec
CONSTANTS MaxN = 7
 MaxForge = 7
INVARIANTS Emit Complete Sound
