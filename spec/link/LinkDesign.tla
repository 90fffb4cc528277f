----------------------------- MODULE LinkDesign -----------------------------
(* The relay as a whole: a source chain, the Link, transactions in flight, and  *)
(* a destination that applies a relay message completely or rejects it.         *)
(* Transactions may be executed in any order, other relayers may deliver the    *)
(* same blocks, and the relay may restart with transactions in flight.          *)
(* Checked: the destination only ever moves along the source chain, and every   *)
(* block and message is delivered in the end (WF on the parts).                 *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS NB, MaxN, L, MaxNet, MaxOther, MaxRestart

VARIABLES n, ann, pos, net, dst, other, restarts

vars == <<n, ann, pos, net, dst, other, restarts>>
P(b, s) == [b |-> b, s |-> s]
Min(a, b) == IF a < b THEN a ELSE b
Msgs(b) == IF b = 0 THEN 0 ELSE n[b]
Complete(p) == p.s = Msgs(p.b)
Before(p, q) == p.b < q.b \/ (p.b = q.b /\ p.s < q.s)

\* the next relay message from position p: rest of the block, or the next announced block
CanSend(p) == ~Complete(p) \/ p.b < ann
NextTx(p) ==
  IF ~Complete(p) THEN [bu |-> FALSE, from |-> p, to |-> P(p.b, p.s + Min(L, Msgs(p.b) - p.s)), own |-> TRUE]
  ELSE [bu |-> TRUE, from |-> p, to |-> P(p.b + 1, Min(L - 1, Msgs(p.b + 1))), own |-> TRUE]

Judge(t, d) ==
  IF t.bu THEN IF t.to.b <= d.b THEN "already"
               ELSE IF t.to.b = d.b + 1 /\ Complete(d) THEN "ok" ELSE "notverifiable"
  ELSE IF Before(t.from, d) THEN "already"
       ELSE IF t.from = d THEN "ok" ELSE "notverifiable"

Init == /\ n \in [1..NB -> 0..MaxN]
        /\ ann = 0 /\ pos = P(0, 0) /\ net = <<>> /\ dst = P(0, 0) /\ other = 0 /\ restarts = 0

Announce == ann < NB /\ ann' = ann + 1 /\ UNCHANGED <<n, pos, net, dst, other, restarts>>

Relay == /\ CanSend(pos) /\ Len(net) < MaxNet
         /\ net' = Append(net, NextTx(pos)) /\ pos' = NextTx(pos).to
         /\ UNCHANGED <<n, ann, dst, other, restarts>>

Drop(s, i) == [j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]]

Exec(i) ==
  /\ i \in 1..Len(net)
  /\ LET t == net[i] r == Judge(t, dst) d == IF r = "ok" THEN t.to ELSE dst IN
     /\ dst' = d /\ net' = Drop(net, i)
     /\ pos' = CASE ~t.own -> pos
                 [] r = "notverifiable" -> d                     \* status asked, sent again from there
                 [] OTHER -> IF Before(pos, d) THEN d ELSE pos   \* status after the result
  /\ UNCHANGED <<n, ann, other, restarts>>

Other == /\ other < MaxOther /\ dst.b < NB
         /\ dst' = IF Complete(dst) THEN P(dst.b + 1, Msgs(dst.b + 1)) ELSE P(dst.b, Msgs(dst.b))
         /\ other' = other + 1 /\ UNCHANGED <<n, ann, pos, net, restarts>>

Restart == /\ restarts < MaxRestart
           /\ restarts' = restarts + 1 /\ pos' = dst /\ ann' = dst.b
           /\ net' = [i \in 1..Len(net) |-> [net[i] EXCEPT !.own = FALSE]]
           /\ UNCHANGED <<n, dst, other>>

Next == Announce \/ Relay \/ (\E i \in 1..MaxNet : Exec(i)) \/ Other \/ Restart
Spec == Init /\ [][Next]_vars /\ WF_vars(Announce) /\ WF_vars(Relay) /\ WF_vars(Exec(1))

TypeOK == /\ dst.b \in 0..NB /\ dst.s \in 0..Msgs(dst.b)
          /\ pos.b \in 0..NB /\ pos.s \in 0..Msgs(pos.b)
\* the destination moves only forward, a block at a time and only from a complete block
Forward == [][dst' # dst => /\ Before(dst, dst')
                            /\ dst'.b \in {dst.b, dst.b + 1}
                            /\ dst'.b # dst.b => Complete(dst)]_vars
\* what is in flight starts where something before it ended, or at a status of the destination
Chain == \A i \in 1..Len(net) : ~Before(net[i].to, net[i].from) /\ net[i].to # net[i].from
Delivered == <>[](dst = P(NB, Msgs(NB)))
=============================================================================
