----------------------------- MODULE RecvDesign -----------------------------
(* A receiver fed by a block stream that may fail, and the walk a relay makes   *)
(* over it: block update by block update, message proof by message proof, each  *)
(* proof limited in size.  Restarting from any status of the walk must lead to  *)
(* the same end.                                                                 *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS NB, MaxN, L, All   \* All: announce blocks without messages, too
VARIABLES n, ann, nxt, closed, pos, ok, fin
vars == <<n, ann, nxt, closed, pos, ok, fin>>

P(b, s) == [b |-> b, s |-> s]
Msgs(b) == IF b = 0 THEN 0 ELSE n[b]
Min(a, b) == IF a < b THEN a ELSE b
Must(b, p) == \/ b > p.b /\ (All \/ n[b] > 0)
              \/ b = p.b /\ p.s < Msgs(b)

Init == /\ n \in [1..NB -> 0..MaxN]
        /\ \E b \in 0..NB : \E s \in 0..Msgs(b) : pos = P(b, s) /\ fin = P(b, s) /\ nxt = IF b = 0 THEN 1 ELSE b
        /\ ann = {} /\ closed = FALSE /\ ok \in BOOLEAN

\* the stream hands over block nxt
Receive == /\ ~closed /\ nxt <= NB
           /\ ann' = ann \cup {nxt} /\ nxt' = nxt + 1 /\ UNCHANGED <<n, closed, pos, ok, fin>>
Fail == ~ok /\ ~closed /\ closed' = TRUE /\ UNCHANGED <<n, ann, nxt, pos, ok, fin>>

Prove == /\ pos.b \in ann /\ pos.s < Msgs(pos.b)
         /\ \E k \in 1..Min(L, Msgs(pos.b) - pos.s) : pos' = P(pos.b, pos.s + k)
         /\ UNCHANGED <<n, ann, nxt, closed, ok, fin>>
Update == /\ pos.s = Msgs(pos.b)
          /\ \E b \in ann : b > pos.b /\ (\A c \in ann : ~(pos.b < c /\ c < b)) /\ pos' = P(b, 0)
          /\ UNCHANGED <<n, ann, nxt, closed, ok, fin>>
\* delivered blocks may be forgotten
Final == /\ fin' = pos /\ ann' = {b \in ann : b > pos.b \/ (b = pos.b /\ pos.s < Msgs(b))}
         /\ UNCHANGED <<n, nxt, closed, pos, ok>>
\* a new receiver from the status of the destination
Restart == /\ nxt' = (IF pos.b = 0 THEN 1 ELSE pos.b) /\ ann' = {} /\ closed' = FALSE /\ ok' = TRUE
           /\ closed /\ UNCHANGED <<n, pos, fin>>

Next == Receive \/ Fail \/ Prove \/ Update \/ Final \/ Restart
Spec == Init /\ [][Next]_vars /\ WF_vars(Receive) /\ WF_vars(Prove) /\ WF_vars(Update) /\ WF_vars(Restart)

TypeOK == pos.b \in 0..NB /\ pos.s \in 0..Msgs(pos.b)
\* nothing the walk needs is missing before what is announced
NoHole == \A b \in ann : \A c \in 1..(b - 1) : Must(c, pos) => c \in ann
Walk == [][pos' # pos => \/ pos'.b = pos.b /\ pos'.s > pos.s
                         \/ pos'.b = pos.b + 1 /\ pos.s = Msgs(pos.b) /\ pos'.s = 0]_vars
Delivered == <>[](pos = P(NB, Msgs(NB)))
=============================================================================
