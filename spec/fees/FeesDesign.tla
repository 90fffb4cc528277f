----------------------------- MODULE FeesDesign -----------------------------
(* Whatever comes in whatever order, with whatever price and outages: what is   *)
(* promised and refundable is there, no ICX is lost, nobody pays more than the  *)
(* tokens cost, and what is promised and refundable can be had.                 *)
EXTENDS Fees, TLC
CONSTANTS Vals, Fee, Prices, MaxNow, MaxSyn, MaxDep, MaxTok
VARIABLE s
ArmNone == [op |-> "none", tok |-> "P", v |-> 0]
Arms == {ArmNone, [op |-> "rev", tok |-> "P", v |-> 0]} \cup {[op |-> o, tok |-> t, v |-> v] : o \in {"deposit"}, t \in Toks, v \in {1}}
        \cup {[op |-> "claim", tok |-> t, v |-> 0] : t \in Toks} \cup {[op |-> "withdrawal", tok |-> "P", v |-> 0]}
ArmsOf(a) == IF a = "k1" THEN Arms ELSE {ArmNone}
Ops == [op : {"deposit"}, by : Accts, tok : Toks, v : Vals]
       \cup UNION {[op : {"claim"}, by : {a}, tok : Toks, arm : ArmsOf(a)] : a \in Accts}
       \cup UNION {[op : {"withdrawal"}, by : {a}, arm : ArmsOf(a)] : a \in Accts}
       \cup [op : {"price"}, tok : Toks, v : Prices]
       \cup [op : {"down"}, what : {"cps"}, on : BOOLEAN]
       \cup [op : {"wait"}, v : {1}]
Init == s = [Start0 EXCEPT !.toks = SetToSeq(Toks), !.dur = 1]
Next == \/ \E o \in Ops : /\ o.op = "wait" => s.now < MaxNow
                          /\ Do(s, o).s.n <= MaxSyn
                          /\ \A t \in Toks : Total(Do(s, o).s.syn[t]) <= MaxDep
                          /\ s' = Do(s, o).s
        \/ \E t \in Toks : SumOf(s.have[t], DOMAIN s.have[t]) + Fee <= MaxTok /\ s' = Do(s, [op |-> "fees", tok |-> t, v |-> Fee]).s
Spec == Init /\ [][Next]_s
Safe == Promised(s) /\ Backed(s) /\ Solvent(s) /\ NoLess(s)
\* at the end of a syndication every depositor pays what the tokens cost that he gets, but for rounding, and the rest is his
Fair == \A t \in Toks : LET y == s.syn[t] IN y.on =>
          /\ SumOf([a \in Accts |-> Share(s, t, y, a)], Accts) <= y.amt
          /\ SumOf([a \in Accts |-> Back(s, t, y, a)], Accts) <= Total(y)
          /\ \A a \in Accts : LET paid == y.dep[a] - Back(s, t, y, a)
                              IN (paid * Unit(t) - Share(s, t, y, a) * Price(s, t)) \in (1 - Unit(t))..(Unit(t) + Price(s, t))
          /\ \A a, b \in Accts : y.dep[a] <= y.dep[b] => Share(s, t, y, a) <= Share(s, t, y, b)
\* what is owed is paid when asked for
Paid == \A a \in Accts :
          /\ s.ref[a] > 0 => LET r == Do(s, [op |-> "withdrawal", by |-> a, arm |-> ArmNone]) IN r.ok /\ r.s.ref[a] = 0 /\ r.s.icx[a] = s.icx[a] + s.ref[a]
          /\ \A t \in Toks : (s.bal[t][a] > 0 /\ ~s.down.cps) =>
               LET r == Do(s, [op |-> "claim", by |-> a, tok |-> t, arm |-> ArmNone]) IN r.ok /\ r.s.have[t][a] = s.have[t][a] + s.bal[t][a]
=============================================================================
