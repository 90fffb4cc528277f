SPECIFICATION Spec
CONSTANTS MaxSend = 3
 Users = {"k1"}
 Vals = {4}
INVARIANTS Backed Solvent NoLess AtRest
CHECK_DEADLOCK FALSE
