SPECIFICATION Spec
CONSTANTS MaxLen = 11
 MaxAttack = 0
INVARIANTS RootsExact DiskClosed
