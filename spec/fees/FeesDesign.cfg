SPECIFICATION Spec
CONSTANTS Accts = {"u1", "k1"}
 Toks = {"P"}
 Vals = {0, 3, 8}
 Fee = 7
 Prices = {13, 40}
 MaxNow = 3
 MaxSyn = 2
 MaxDep = 11
 MaxTok = 14
INVARIANTS Safe Fair Paid
CHECK_DEADLOCK FALSE
