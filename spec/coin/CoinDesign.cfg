SPECIFICATION Spec
CONSTANTS MaxSend = 2
 Users = {"u1", "k1"}
 Vals = {4}
INVARIANTS Backed Solvent NoLess AtRest
CHECK_DEADLOCK FALSE
