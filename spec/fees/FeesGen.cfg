SPECIFICATION Spec
CONSTANTS Accts = {"u1", "u2", "k1"}
 Toks = {"P", "Q", "R"}
INVARIANT Say
ACTION_CONSTRAINT Stop
CHECK_DEADLOCK FALSE
