SPECIFICATION Spec
CONSTANTS MaxLen = 6
 MaxAttack = 0
INVARIANTS RootsExact DiskClosed
