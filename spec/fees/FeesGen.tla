------------------------------ MODULE FeesGen ------------------------------
(* Histories of fees, deposits and syndications. *)
EXTENDS Fees, TLC, Json, IOUtils
VARIABLES s, hist, k
Rn(S) == IF k > 0 THEN RandomElement(S) ELSE CHOOSE x \in S : TRUE
RS(q) == q[Rn(DOMAIN q)]
Who == RS(<<"u1", "u2", "k1", "k1">>)
T == RS(<<"P", "P", "Q", "Q", "Q", "R", "R">>)
Val == RS(<<0, 1, 2, 3, 7, 20, 50, 99, 100, 333, 1000>>)
Arm == LET a == RS(<<"none", "none", "withdrawal", "claim", "claim", "deposit", "deposit", "rev">>)
       IN [op |-> a, tok |-> T, v |-> Val]
Reg == LET t == T IN
  IF t = "P" THEN [op |-> "irc2", by |-> IF Rn(1..5) = 1 THEN "u1" ELSE "own", tok |-> t, at |-> IF Rn(1..5) = 1 THEN "u2" ELSE "t2"]
  ELSE [op |-> "irc31", by |-> IF Rn(1..5) = 1 THEN "u1" ELSE "own", tok |-> t, at |-> IF Rn(1..5) = 1 THEN "u2" ELSE "t31",
        id |-> IF Rn(1..5) = 1 THEN RS(<<0, -1>>) ELSE Id(t)]
Unknown == {t \in Toks : ~Known(s, t)}
Dep(t) == [op |-> "deposit", by |-> Who, tok |-> t, v |-> Val]
Promises == {p \in Toks \X Accts : s.bal[p[1]][p[2]] > 0}
Backs == {a \in Accts : s.ref[a] > 0}
Op == LET z == Rn(1..40) IN
  IF z <= 6 /\ Unknown # {} THEN (IF z <= 2 THEN Reg ELSE LET t == Rn(Unknown) IN IF t = "P" THEN [op |-> "irc2", by |-> "own", tok |-> t, at |-> "t2"]
                                                       ELSE [op |-> "irc31", by |-> "own", tok |-> t, at |-> "t31", id |-> Id(t)])
  ELSE CASE z = 7 -> Reg
    [] z = 8 -> [op |-> "duration", by |-> IF Rn(1..4) = 1 THEN "u2" ELSE "own", v |-> RS(<<0, 1, 2, 3, 5, 8>>)]
    [] z \in 9..12 -> [op |-> "fees", tok |-> T, v |-> RS(<<1, 2, 5, 10, 33, 100, 250>>)]
    [] z \in 13..22 -> Dep(T)
    [] z \in 23..26 -> IF Promises # {} /\ Rn(1..6) > 1 THEN LET p == Rn(Promises) IN [op |-> "claim", by |-> p[2], tok |-> p[1], arm |-> Arm]
                       ELSE [op |-> "claim", by |-> Who, tok |-> T, arm |-> Arm]
    [] z \in 27..29 -> [op |-> "withdrawal", by |-> IF Backs # {} /\ Rn(1..6) > 1 THEN Rn(Backs) ELSE Who, arm |-> Arm]
    [] z = 30 -> [op |-> "pay", by |-> Who, v |-> RS(<<0, 1, 40>>)]
    [] z \in 31..33 -> [op |-> "price", tok |-> T, v |-> RS(<<0, 1, 2, 10, 30, 99, 100, 150, 500, 2000, 10000>>)]
    [] z = 34 -> [op |-> "down", what |-> RS(<<"cps", "band", "tok">>), on |-> Rn(1..3) = 1]
    [] z = 35 /\ (s.down.cps \/ s.down.band \/ s.down.tok) -> [op |-> "down", what |-> Rn({x \in {"cps", "band", "tok"} : s.down[x]}), on |-> FALSE]
    [] OTHER -> [op |-> "wait", v |-> IF s.dur > 1000 /\ Rn(1..4) = 1 THEN RS(<<43199, 43200>>) ELSE RS(<<1, 1, 2, 3>>)]
Init == k \in 1..1 /\ s = Start0 /\ hist = << >>
Next == \E o \in {Op} : s' = Do(s, o).s /\ hist' = Append(hist, o) /\ UNCHANGED k
MaxOps == atoi(IOEnv.GENLEN)
Say == Len(hist) >= MaxOps => PrintT("SCN" \o ToJson([ops |-> hist]))
Stop == Len(hist) < MaxOps
Spec == Init /\ [][Next]_<<s, hist, k>>
=============================================================================
