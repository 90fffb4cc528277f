SPECIFICATION Spec
CONSTANTS MaxLen = 40
 AtkLen = 9
INVARIANTS Complete Newer Sound
