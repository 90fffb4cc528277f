------------------------------ MODULE CoinGen ------------------------------
(* Histories of transfers between the networks. *)
EXTENDS Coin, TLC, Json, IOUtils

VARIABLES w, hist, k
R(S) == IF k > 0 THEN RandomElement(S) ELSE CHOOSE x \in S : TRUE
RS(q) == q[R(DOMAIN q)]
Val == RS(<<1, 2, 3, 7, 50, 999, 1000, 1001, 9999, 20000>>)
To(n) == RS(<<"u1", "u2", "k1", "k1", "u1", "u2", "u1", "ncs", "text", "">>)
NetTo(n) == IF R(1..12) = 1 THEN RS(<<n, "Z", "", "C", "C">>) ELSE Other(n)
\* what an account has of a coin, or thereabouts
Some(have) == IF have < 1 \/ R(1..10) = 1 THEN RS(<<Val, have, have + 1, 0, -1>>) ELSE IF R(1..4) = 1 THEN have ELSE R(1..(IF have > 30000 THEN 30000 ELSE have))
Who == RS(<<"u1", "u2", "k1">>)
Has(n) == {p \in Coins \X Accts : p[1] # Home(n) /\ w.net[n].tok[p[1]][p[2]] > 0}
Refs(n) == {p \in Coins \X Accts : w.net[n].ref[p[1]][p[2]] > 0}
Arm(n) == LET a == RS(<<"none", "reclaim", "reclaim", "rev">>)
              p == {q \in Refs(n) : q[2] = "k1"}  c == IF p = {} THEN RS(<<"NA", "NB", "T">>) ELSE R(p)[1]
          IN [a |-> a, coin |-> c, v |-> IF R(1..3) = 1 THEN Val ELSE w.net[n].ref[c]["k1"]]
NoArm == [a |-> "none", coin |-> "T", v |-> 0]
NatOp(n) == [op |-> "nat", n |-> n, by |-> Who, v |-> IF R(1..15) = 1 THEN 0 ELSE Val, net |-> NetTo(n), to |-> To(n)]
TokOp(n) ==
  LET p == IF Has(n) # {} /\ R(1..12) > 1 THEN R(Has(n)) ELSE <<RS(<<"NA", "NB", "T", "XX">>), Who>>
      have == IF p[1] \in Coins THEN w.net[n].tok[p[1]][p[2]] ELSE 5  v == Some(have)
  IN [op |-> "tok", n |-> n, by |-> p[2], coins |-> <<p[1]>>, vs |-> <<v>>, v |-> v, net |-> NetTo(n), to |-> To(n)]
BatchOp(n) ==
  LET p == IF Has(n) # {} THEN R(Has(n)) ELSE <<RS(<<"NA", "NB", "T">>), Who>>
      len == RS(<<0, 1, 2, 2, 2, 3>>)
      mine == {q \in Has(n) : q[2] = p[2]}
      c == [i \in 1..len |-> IF mine = {} \/ R(1..20) = 1 THEN RS(<<"NA", "NB", "T", "XX">>) ELSE R(mine)[1]]
      v == [i \in 1..len |-> IF c[i] \in Coins THEN Some(w.net[n].tok[c[i]][p[2]] \div (IF R(1..6) = 1 THEN 1 ELSE len)) ELSE 1]
  IN [op |-> "batch", n |-> n, by |-> p[2], coins |-> c, vs |-> IF R(1..20) = 1 THEN Append(v, 1) ELSE v,
      v |-> IF R(1..2) = 1 THEN 0 ELSE Val, net |-> NetTo(n), to |-> To(n)]
RecOp(n) ==
  LET p == IF Refs(n) # {} /\ R(1..12) > 1 THEN R(Refs(n)) ELSE <<RS(<<"NA", "NB", "T", "XX">>), Who>>
      have == IF p[1] \in Coins THEN w.net[n].ref[p[1]][p[2]] ELSE 0
  IN [op |-> "reclaim", n |-> n, by |-> p[2], coin |-> p[1], v |-> Some(have), arm |-> Arm(n)]
NetOp ==
  LET i == R(DOMAIN w.pool)  m == w.pool[i]  z == R(1..20)
  IN IF m.t = "req" /\ z <= 3 THEN [op |-> "error", i |-> i, how |-> IF R(1..6) = 1 THEN "notbmc" ELSE "ok", n |-> m.src]
     ELSE IF m.t = "req" /\ z <= 5 THEN [op |-> "reject", i |-> i, code |-> RS(<<1, 1, 7, -1>>), n |-> m.dst]
     ELSE [op |-> "deliver", i |-> i, how |-> IF R(1..12) = 1 THEN RS(<<"notbmc", "cut">>) ELSE "ok", n |-> m.dst, arm |-> Arm(m.dst)]
\* the requests that were refused get their error
Bad(m) == m.t = "req" /\ ~Deliver([w EXCEPT !.pool = <<m>>], 1, NoArm).ok
Bads == {i \in DOMAIN w.pool : Bad(w.pool[i])}
ErrOp == LET i == R(Bads) IN [op |-> "error", i |-> i, how |-> "ok", n |-> w.pool[i].src]
ForeignOp(n) ==
  LET len == RS(<<1, 1, 2, 3, 0>>)
      t == RS(<<"req", "req", "req", "req", "type1", "type4", "unk">>)
  IN [op |-> "foreign", n |-> n, t |-> t, sn |-> IF t = "req" THEN R(1..9) ELSE R(0..9), to |-> RS(<<"u1", "u2", "k1", "k1", "ncs", "text">>),
      assets |-> [i \in 1..len |-> <<RS(<<"T", "T", "T", Home(Other(n)), Home(n), "XX">>), RS(<<1, 100, 5000, 5000, 0, -1, 40000>>)>>], arm |-> Arm(n)]
AdmOp(n) ==
  LET z == R(1..11)  by == IF R(1..4) = 1 THEN RS(<<"u1", "u2", "k1">>) ELSE "own"
  IN CASE z = 1 -> [op |-> "register", n |-> n, by |-> by, coin |-> RS(<<"NA", "NB", "T">>)]
       [] z <= 3 -> [op |-> "ratio", n |-> n, by |-> by, v |-> RS(<<1, 10, 100, 3333, 5000, 9999, 0, 10000, -1>>)]
       [] z = 4 -> [op |-> "addOwner", n |-> n, by |-> by, who |-> RS(<<"u1", "u2", "own">>)]
       [] z = 5 -> [op |-> "removeOwner", n |-> n, by |-> by, who |-> RS(<<"u1", "u2", "own">>)]
       [] z = 6 -> [op |-> "approve", n |-> n, by |-> Who, v |-> R(1..4) > 1]
       [] z = 7 -> [op |-> "grant", n |-> n, by |-> "own", v |-> (~w.net[n].grant \/ R(1..3) > 1)]
       [] z = 8 -> [op |-> "down", n |-> n, by |-> "own", v |-> (~w.net[n].down /\ R(1..3) = 1)]
       [] z <= 10 -> LET who == Who  c == IF by = "own" THEN "T" ELSE RS(<<"NA", "NB", "T">>)
                    IN [op |-> "supply", n |-> n, by |-> by, m |-> RS(<<"mint", "burn">>), batch |-> R(BOOLEAN), who |-> who, coin |-> c,
                        v |-> IF R(1..6) = 1 THEN RS(<<0, -1>>) ELSE RS(<<1, 100, 5000, w.net[n].tok[c][who], w.net[n].tok[c][who] + 1>>), arm |-> NoArm]
       [] OTHER -> [op |-> "update", n |-> n, by |-> "own"]
Op == LET z == R(1..24)  n == R(Nets)  h == Len(hist)
      IN IF h < 2 THEN [op |-> "register", n |-> IF h = 0 THEN "A" ELSE "B", by |-> "own", coin |-> IF h = 0 THEN "NB" ELSE "NA"]
         ELSE IF h < 8 THEN [op |-> "approve", n |-> IF h < 5 THEN "A" ELSE "B", by |-> <<"u1", "u2", "k1">>[((h - 2) % 3) + 1], v |-> TRUE]
         ELSE IF h < 10 /\ R(1..4) > 1 THEN [op |-> "register", n |-> IF h = 8 THEN "A" ELSE "B", by |-> "own", coin |-> "T"]
         ELSE IF z <= 2 THEN AdmOp(n)
         ELSE IF z = 3 /\ Bads # {} THEN ErrOp
         ELSE IF z <= 9 /\ w.pool # << >> THEN NetOp
         ELSE IF z <= 12 /\ Refs("A") \cup Refs("B") # {} THEN RecOp(IF Refs("A") = {} THEN "B" ELSE IF Refs("B") = {} THEN "A" ELSE n)
         ELSE IF z = 13 THEN RecOp(n)
         ELSE IF z <= 15 THEN ForeignOp(n)
         ELSE IF z <= 18 /\ Has("A") \cup Has("B") # {} THEN TokOp(IF Has("A") = {} THEN "B" ELSE IF Has("B") = {} THEN "A" ELSE n)
         ELSE IF z <= 21 THEN BatchOp(n)
         ELSE NatOp(n)
Init == w = World0 /\ hist = << >> /\ k \in 1..1
Next == \E o \in {Op} : \E r \in {Do(w, o)} : w' = r.w /\ hist' = Append(hist, o) /\ UNCHANGED k
MaxOps == atoi(IOEnv.GENLEN)
Say == Len(hist) >= MaxOps => PrintT("SCN" \o ToJson([ops |-> hist]))
Stop == Len(hist) < MaxOps
Spec == Init /\ [][Next]_<<w, hist, k>>
=============================================================================
