SPECIFICATION Spec
CONSTANTS MaxN = 24
 MaxForge = 7
INVARIANTS Complete Sound
