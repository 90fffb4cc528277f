SPECIFICATION Spec
CONSTANTS Accts = {"u1", "k1"}
 Toks = {"P"}
 Vals = {0, 3, 8}
 Fee = 7
 Prices = {1, 13, 40}
 MaxNow = 4
 MaxSyn = 3
 MaxDep = 14
 MaxTok = 21
INVARIANTS Safe Fair Paid
CHECK_DEADLOCK FALSE
