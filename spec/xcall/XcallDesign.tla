---------------------------- MODULE XcallDesign ----------------------------
(* What the service is for: however messages, errors and executions are        *)
(* interleaved, a call runs once, its rollback runs once, never both with      *)
(* success; at rest every call with rollback data has ended one way or the     *)
(* other; and no coin is lost.                                                 *)
EXTENDS Xcall, TLC
CONSTANTS MaxSend, Actions
VARIABLES w, ran, rolled, paid
vars == <<w, ran, rolled, paid>>
D(a) == [a |-> a, n |-> IF a = "rev" THEN 3 ELSE 0, z |-> 0]
Init == /\ w = [World0 EXCEPT !.net = [n \in Nets |-> [Net0 EXCEPT !.fee = IF n = "A" THEN 2 ELSE 0]]]
        /\ ran = << >> /\ rolled = << >> /\ paid = 0
\* calls of which network and number a run belongs to
SendA == \E n \in Nets, by \in {"d1", "u1"}, to \in {"d1", "cx"}, a \in Actions, rb \in {None, D("ok")}, v \in {0, 2, 3} :
  LET o == [op |-> "send", n |-> n, by |-> by, net |-> Other(n), to |-> to, data |-> D(a), rb |-> rb, val |-> v]
      r == Do(w, o)
  IN /\ w.net["A"].sn + w.net["B"].sn < MaxSend
     /\ r.ok /\ w' = r.w /\ paid' = paid + v /\ UNCHANGED <<ran, rolled>>
NetA == \E i \in DOMAIN w.pool : \/ w' = Deliver(w, i).w /\ UNCHANGED <<ran, rolled, paid>>
                                 \/ /\ w.pool[i].t = "req" /\ w.pool[i].rb
                                    /\ w' = Error(w, i).w /\ UNCHANGED <<ran, rolled, paid>>
ExecA == \E n \in Nets : \E id \in DOMAIN w.net[n].prox :
  LET p == w.net[n].prox[id]  r == Exec(w, n, id)
      code == CHOOSE c \in -1..10 : <<"CallExecuted", id, c>> \in r.ev
  IN r.ok /\ w' = r.w /\ ran' = Append(ran, <<p.net, p.sn, code>>) /\ UNCHANGED <<rolled, paid>>
RollA == \E n \in Nets : \E s \in DOMAIN w.net[n].req :
  LET r == Roll(w, n, s) IN r.ok /\ w' = r.w /\ rolled' = Append(rolled, <<n, s>>) /\ UNCHANGED <<ran, paid>>
HandlerA == \E n \in Nets, h \in {"none", "h1"} : w.net[n].handler # h /\ n = "A" /\
  w' = Do(w, [op |-> "handler", n |-> n, by |-> "own", who |-> h]).w /\ UNCHANGED <<ran, rolled, paid>>
Next == SendA \/ NetA \/ ExecA \/ RollA \/ HandlerA
Spec == Init /\ [][Next]_vars

Ran(n, s) == {i \in DOMAIN ran : ran[i][1] = n /\ ran[i][2] = s}
Rolled(n, s) == {i \in DOMAIN rolled : rolled[i] = <<n, s>>}
Once == \A n \in Nets : \A s \in 1..w.net[n].sn : Cardinality(Ran(n, s)) <= 1 /\ Cardinality(Rolled(n, s)) <= 1
NotBoth == \A n \in Nets : \A s \in 1..w.net[n].sn : Rolled(n, s) # {} => \A i \in Ran(n, s) : ran[i][3] # 0
AtRest == (w.pool = << >> /\ \A n \in Nets : w.net[n].prox = << >>) =>
  \A n \in Nets : \A s \in DOMAIN w.net[n].req : w.net[n].req[s].en
Coins == LET T(n) == w.net[n].x + w.net[n].h1 + w.net[n].h2 + w.net[n].bmc IN T("A") + T("B") = paid
=============================================================================
