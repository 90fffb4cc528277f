------------------------------ MODULE BmcDesign ------------------------------
(* What the transitions of Bmc guarantee for a network of BMCs, whatever is sent, answered, *)
(* refused, relayed in whatever order, and claimed:                                         *)
(*  - a link delivers what was sent on it, each message once and in order;                  *)
(*  - every message is at one place until it has exactly one end, and a message which asks  *)
(*    for an answer ends with the answer or an error at the network it came from;           *)
(*  - coins paid as fees are rewards, fees on the way, or claims on the way: none is lost   *)
(*    or made.                                                                              *)
EXTENDS BmcNet, FiniteSetsExt

VARIABLES W, fin, left
CONSTANTS Topos, Sends, Claims, Admins
vars == <<W, fin, left>>
DPays == {P("x", << >>, 0, "ok"), P("x", << >>, 2, "rev"), P("x", << >>, 0, "reply"),
          P("x", << >>, 4, "replyrev"), P("x", <<"A">>, 0, "send")}

Clean(V) == [V EXCEPT !.S = [c \in Chains |-> Fresh(V.S[c])], !.cur = Empty]
\* everything that was ever sent, with its place: [at, from, i]
Sent(V) == UNION {{[f |-> k[1], t |-> k[2], i |-> i, m |-> V.q[k][i]] : i \in DOMAIN V.q[k]} : k \in DOMAIN V.q}
Coming(V) == {x \in Sent(V) : x.i > Rx(V, x.t, x.f)}
Name(m) == IF m.nsn > 0 THEN <<m.src, m.nsn>> ELSE <<m.dst, -m.nsn>>
Kept(V) == UNION {{[d |-> d, k |-> k, r |-> V.S[d].resp[k]] : k \in DOMAIN V.S[d].resp} : d \in Chains}
TwoWay(V) == {Name(x.m) : x \in {y \in Sent(V) : y.m.nsn > 0 /\ y.m.sn > 0}}

Do1(o) ==
  /\ Errs(Fresh(W.S[o.ch]), Full(W, o)) = {}
  /\ LET V == Exec(W, o)  b == V.S[o.ch].btp IN
     /\ W' = Clean(V)
     /\ fin' = [x \in DOMAIN fin \cup {<<b[i].src, b[i].nsn>> : i \in DOMAIN b} |->
                  At(fin, x, 0) + Cardinality({i \in DOMAIN b :
                     /\ <<b[i].src, b[i].nsn>> = x
                     /\ b[i].k = "DROP" \/ (b[i].k = "RECEIVE" /\ (x[1] = o.ch \/ x \notin TwoWay(V)))})]
Use(f) == left[f] > 0 /\ left' = [left EXCEPT ![f] = @ - 1]

DInit == \E k \in Topos :
  /\ W = Clean(ExecAll(W0, Start(k)))
  /\ fin = [x \in UNION {{<<c, n>> : n \in 1..W.S[c].nsn} : c \in Chains} |->
              IF \E y \in Coming(W) : Name(y.m) = x THEN 0 ELSE 1]
  /\ left = [send |-> Sends, claim |-> Claims, admin |-> Admins]
DSend == \E c \in {"A", "C"}, net \in {"B", "C", "A"}, p \in DPays, z \in {0, 1} :
  /\ net # c /\ Use("send")
  /\ Do1(OSend(c, net, "s1", IF z = 0 THEN 0 ELSE left.send, p, Sum(FeeList(W.S[c], net, z > 0)) + 1, "p1"))
DLate == \E d \in Chains : \E k \in DOMAIN W.S[d].resp :
  /\ k[2] # "bmc" /\ UNCHANGED left
  /\ Do1(OSend(d, k[1], k[2], -k[3], P("x", << >>, 0, "ok"), 0, "p1"))
DRelay == \E d \in Chains, a \in Chains :
  /\ a # d /\ IsLink(W.S[d], a) /\ Len(Waiting(W, d, a)) > Rx(W, d, a) /\ UNCHANGED left
  /\ \E n \in {1, 2} : Do1(OGo(d, a, "u1", n))
DClaim == \E d \in Chains : \E r \in DOMAIN W.S[d].rew : r[1] # Me /\ Use("claim") /\
  \E w \in {"u2", "bad"} : Do1(OClaim(d, r[2], w, r[1], IF r[2] = d THEN 0 ELSE Sum(FeeList(W.S[d], r[2], TRUE))))
DAdmin == Use("admin") /\
  \/ Do1([svc |-> "s1"] @@ O("C", "removeService"))
  \/ Do1(OFee("B", <<"A">>, <<<< >>>>))
  \/ \E d \in {"B", "C"}, sn \in {0, 1} : \E x \in {y \in Coming(W) : y.t = d /\ y.i = Rx(W, d, y.f) + 1 /\ y.m.svc # Me} :
       /\ (x.m.sn > 0) = (sn > 0) /\ x.m.nsn > 0
       /\ Do1([net |-> x.m.src, seq |-> x.i, svc |-> x.m.svc, sn |-> x.m.sn, nsn |-> x.m.nsn, fee |-> x.m.fee] @@ O(d, "dropMessage"))
DNext == DSend \/ DLate \/ DRelay \/ DClaim \/ DAdmin
DSpec == DInit /\ [][DNext]_vars

----------------------------------------------------------------------------
\* links: what is expected next is what was sent next
Links == \A k \in DOMAIN W.q :
  /\ Val(W.S[k[1]].links, k[2]).tx = Len(W.q[k])
  /\ Rx(W, k[2], k[1]) <= Len(W.q[k])
\* one place or one end
Once == \A c \in Chains : \A n \in 1..W.S[c].nsn :
  Cardinality({x \in Coming(W) : Name(x.m) = <<c, n>>}) +
  Cardinality({x \in Kept(W) : x.k[1] = c /\ x.r.nsn = n}) + At(fin, <<c, n>>, 0) = 1
\* nothing is left when all is relayed and answered
Quiet == Coming(W) = {} => /\ \A c \in Chains : W.S[c].reqs = Empty
\* coins
Fee(f, n) == IF f.net = n THEN Sum(f.v) ELSE 0
Plus(S, F(_)) == MapThenSumSet(F, S)
OnTheWay(n) == Plus(Coming(W), LAMBDA x : Fee(x.m.fee, n) +
  (IF x.m.svc # Me THEN 0
   ELSE IF x.m.p.t = "Claim" /\ x.m.dst = n THEN x.m.p.a
   ELSE IF x.m.sn < 0 /\ x.m.dst \in Chains /\ -x.m.nsn \in DOMAIN W.S[x.m.dst].reqs /\ W.S[x.m.dst].reqs[-x.m.nsn].dst = n
        THEN W.S[x.m.dst].reqs[-x.m.nsn].amt ELSE 0))
Rewards(n) == Plus(Chains, LAMBDA c : Plus(DOMAIN W.S[c].rew, LAMBDA r : IF r[2] = n THEN W.S[c].rew[r] ELSE 0))
Coins == \A n \in Chains : W.S[n].bal = Rewards(n) + OnTheWay(n) + Plus(Kept(W), LAMBDA x : Fee(x.r.fee, n))
=============================================================================
