SPECIFICATION Spec
CONSTANTS MaxLen = 16
 AtkLen = 6
INVARIANTS Complete Newer Sound
