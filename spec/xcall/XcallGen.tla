------------------------------ MODULE XcallGen ------------------------------
(* Histories of calls, biased to what is there to be delivered and executed. *)
EXTENDS Xcall, TLC, Json, IOUtils

VARIABLES w, hist, k
R(S) == IF k > 0 THEN RandomElement(S) ELSE CHOOSE x \in S : TRUE
RS(q) == q[R(DOMAIN q)]
Data == [a |-> RS(<<"ok", "ok", "ok", "rev", "rev", "throw", "re", "re", "send", "empty">>), n |-> 0, z |-> 0]
Sized(d, max) == LET e == IF d.a = "rev" THEN [d EXCEPT !.n = RS(<<0, 1, 7, 25, 900>>)] ELSE d
                 IN IF e.a # "empty" /\ R(1..6) = 1 THEN [e EXCEPT !.z = RS(<<max, max, max + 1, max - 1, 60, 300>>)] ELSE e
Need(n, rb) == Fee(w, n, rb)
SendOp ==
  LET n == R(Nets)  by == RS(<<"d1", "d1", "d2", "cx", "u1">>)
      rb == IF R(1..5) <= 3 /\ (by # "u1" \/ R(1..6) = 1) THEN Sized(Data, MaxRollback) ELSE None
      f == Need(n, rb.a # "null")
  IN [op |-> "send", n |-> n, by |-> by, net |-> IF R(1..15) = 1 THEN RS(<<n, "Z", "", "junk">>) ELSE Other(n),
      to |-> RS(<<"d1", "d1", "d2", "d2", "d1", "cx", "u1", "text", "">>), data |-> Sized(Data, MaxData), rb |-> rb,
      val |-> IF R(1..8) = 1 /\ f > 0 THEN R(0..(f - 1)) ELSE RS(<<f, f, f + 1, f + 7>>)]
Ids(n) == DOMAIN w.net[n].prox
Sns(n) == DOMAIN w.net[n].req
Enabled(n) == {s \in Sns(n) : w.net[n].req[s].en}
ExecOp == LET n == IF Ids("A") = {} THEN "B" ELSE IF Ids("B") = {} THEN "A" ELSE R(Nets)
          IN [op |-> "exec", n |-> n, by |-> RS(<<"u1", "d1", "u2">>),
              k |-> IF Ids(n) # {} /\ R(1..8) > 1 THEN R(Ids(n)) ELSE R(0..(w.net[n].rid + 1))]
RollOp == LET n == IF Enabled("A") = {} THEN "B" ELSE IF Enabled("B") = {} THEN "A" ELSE R(Nets)
          IN [op |-> "roll", n |-> n, by |-> RS(<<"u1", "d1", "u2">>),
              k |-> IF Enabled(n) # {} /\ R(1..5) > 1 THEN R(Enabled(n)) ELSE IF Sns(n) # {} /\ R(1..3) > 1 THEN R(Sns(n))
                    ELSE R(0..(w.net[n].sn + 1))]
How == IF R(1..10) = 1 THEN RS(<<"notbmc", "svc", "cut", "type">>) ELSE "ok"
NetOp ==
  LET i == R(DOMAIN w.pool)  m == w.pool[i]
  IN IF m.t = "req" /\ m.rb /\ R(1..4) = 1 THEN [op |-> "error", i |-> i, how |-> IF R(1..8) = 1 THEN RS(<<"notbmc", "svc">>) ELSE "ok", v |-> R(10..30), n |-> m.src]
     ELSE IF R(1..25) = 1 THEN [op |-> "drop", i |-> i, n |-> m.dst]
     ELSE [op |-> "deliver", i |-> i, how |-> How, n |-> m.dst]
Old(n) == (1..w.net[n].sn) \ Sns(n)
StrayOp == LET n == IF Old("A") = {} THEN "B" ELSE IF Old("B") = {} THEN "A" ELSE R(Nets) IN [op |-> "stray", n |-> n, k |-> R(Old(n))]
AdmOp ==
  LET n == R(Nets)  z == R(1..6)  by == IF R(1..3) = 1 THEN RS(<<"own", "u1", "u2", "d1">>) ELSE w.net[n].admin
  IN CASE z = 1 -> [op |-> "admin", n |-> n, by |-> IF R(1..2) = 1 THEN "own" ELSE by, who |-> RS(<<"own", "u1", "u2">>)]
       [] z = 2 -> [op |-> "handler", n |-> n, by |-> by, who |-> RS(<<"none", "h1", "h1", "h2">>)]
       [] z = 3 -> [op |-> "fee", n |-> n, by |-> by, v |-> RS(<<0, 1, 5, 20, -1>>)]
       [] z = 4 -> [op |-> "bfee", n |-> n, by |-> "", v |-> RS(<<0, 0, 3, 10>>)]
       [] z = 5 -> [op |-> "down", n |-> n, by |-> "", v |-> (~w.net[n].down /\ R(1..3) = 1)]
       [] OTHER -> [op |-> "update", n |-> n, by |-> ""]
Op == LET z == R(1..20)
      IN IF z <= 2 THEN AdmOp
         ELSE IF z <= 8 /\ w.pool # << >> THEN NetOp
         ELSE IF z <= 12 /\ Ids("A") \cup Ids("B") # {} THEN ExecOp
         ELSE IF z <= 14 /\ Enabled("A") \cup Enabled("B") # {} THEN RollOp
         ELSE IF z = 17 /\ Old("A") \cup Old("B") # {} THEN StrayOp
         ELSE IF z = 15 THEN RollOp ELSE IF z = 16 THEN ExecOp
         ELSE SendOp
Init == w = World0 /\ hist = << >> /\ k \in 1..1
Next == \E o \in {Op} : \E r \in {Do(w, o)} : w' = r.w /\ hist' = Append(hist, o) /\ UNCHANGED k
MaxOps == atoi(IOEnv.GENLEN)
Say == Len(hist) >= MaxOps => PrintT("SCN" \o ToJson([ops |-> hist]))
Stop == Len(hist) < MaxOps
Spec == Init /\ [][Next]_<<w, hist, k>>
=============================================================================
