SPECIFICATION Spec
CONSTANTS MaxN = 40
 MaxForge = 9
INVARIANTS Complete Sound
