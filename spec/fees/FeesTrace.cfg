SPECIFICATION Spec
CONSTANTS Accts = {"u1", "u2", "k1"}
 Toks = {"P", "Q", "R"}
INVARIANT Report
CHECK_DEADLOCK FALSE
