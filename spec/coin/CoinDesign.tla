----------------------------- MODULE CoinDesign -----------------------------
(* What the service is for: whatever becomes of the messages, the coins of a   *)
(* network that circulate as tokens on the other are held by its service, and  *)
(* what users locked, can reclaim, or paid as fees is there.                   *)
EXTENDS Coin, TLC
CONSTANTS MaxSend, Users, Vals
VARIABLE w
Arms == {[a |-> "none", coin |-> "T", v |-> 0]} \cup {[a |-> "reclaim", coin |-> c, v |-> 4] : c \in {"NA", "NB"}}
Small == [Net0 EXCEPT !.nat = [a \in All |-> IF a \in Users THEN 8 ELSE 0], !.ratio = 2500, !.appr = [a \in Accts |-> TRUE]]
Init == w = [World0 EXCEPT !.net = [n \in Nets |-> [Small EXCEPT !.reg = <<Home(Other(n))>>]]]
More == w.net["A"].sn + w.net["B"].sn < MaxSend
SendA == More /\ \E n \in Nets, by \in Users, to \in Users \cup {"text"}, v \in Vals :
  \E r \in {Do(w, [op |-> "nat", n |-> n, by |-> by, v |-> v, net |-> Other(n), to |-> to])} : r.ok /\ w' = r.w
BatchA == More /\ \E n \in Nets, by \in Users, to \in Users, v \in {0} \cup Vals, q \in {<<>>, <<2>>, <<3>>, <<1, 2>>, <<2, 2>>} :
  \E r \in {Do(w, [op |-> "batch", n |-> n, by |-> by, v |-> v, coins |-> [i \in DOMAIN q |-> Home(Other(n))], vs |-> q, net |-> Other(n), to |-> to])} :
  r.ok /\ w' = r.w
NetA == \E i \in DOMAIN w.pool : \/ \E arm \in Arms : \E r \in {Deliver(w, i, arm)} : r.ok /\ w' = r.w
                                 \/ w.pool[i].t = "req" /\ w' = Error(w, i).w
                                 \/ w.pool[i].t = "req" /\ w' = Reject(w, i, 1).w
RecA == \E n \in Nets, by \in Users, c \in Coins, arm \in Arms : w.net[n].ref[c][by] > 0 /\
  \E v \in {w.net[n].ref[c][by], 1} : \E r \in {Do(w, [op |-> "reclaim", n |-> n, by |-> by, coin |-> c, v |-> v, arm |-> arm])} : r.ok /\ w' = r.w
Next == SendA \/ BatchA \/ NetA \/ RecA
Spec == Init /\ [][Next]_w

RECURSIVE Tot(_, _)
Tot(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Tot(f, S \ {x})
\* coins of transfers from n whose success is not yet known there
Done(n, c) == LET I == {i \in DOMAIN w.pool : w.pool[i].t = "res" /\ w.pool[i].code = 0 /\ w.pool[i].dst = n}
              IN Tot([i \in I |-> Sum(w.net[n].tx[w.pool[i].sn].assets, c, 2)], I)
Owed(n, c) == Tot(w.net[n].lock[c], Accts) + Tot(w.net[n].ref[c], Accts) + w.net[n].fee[c]
Backed == \A n \in Nets : LET m == Other(n)  c == Home(n)
          IN w.net[n].nat["ncs"] + Done(m, c) = Owed(n, c) + Supply(w.net[m], c) - Done(n, c)
Solvent == \A n \in Nets : /\ w.net[n].nat["ncs"] >= Owed(n, Home(n)) - Done(n, Home(n))
                           /\ w.net[n].tok[Home(Other(n))]["ncs"] = Owed(n, Home(Other(n)))
NoLess == \A n \in Nets : \A c \in Coins : \A a \in Accts : w.net[n].lock[c][a] >= 0 /\ w.net[n].ref[c][a] >= 0
\* when everything is answered nothing is locked
AtRest == w.pool = << >> => \A n \in Nets : w.net[n].tx = << >> /\ \A c \in Coins : \A a \in Accts : w.net[n].lock[c][a] = 0
=============================================================================
