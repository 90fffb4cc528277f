------------------------------- MODULE BmcGen -------------------------------
(* Histories of calls, biased to the ones that mean something in the state reached. *)
EXTENDS BmcNet, Json, IOUtils

VARIABLES W, hist, k
\* these depend on the state, so that TLC does not take one choice for good
R(S) == IF k > 0 THEN RandomElement(S) ELSE CHOOSE x \in S : TRUE
RS(q) == q[R(DOMAIN q)]       \* with weights
Mode == IOEnv.GENMODE      \* flow, fees, admin, frag
Users == {"u0", "u1", "u2", "u3"}
LinkNames == {"A", "B", "C", "D", "A2", "B2", "bad"}
NetNames == {"A", "B", "C", "D"}
Some(q, d) == IF q = << >> THEN d ELSE q[R(DOMAIN q)]
OneOf(S, d) == IF S = {} THEN d ELSE R(S)

MyLink(c) == IF R(1..12) = 1 THEN R(LinkNames) ELSE Some(LinkAddrs(W.S[c]), "B")
Adm(c) == IF R(1..10) = 1 THEN R(Users) ELSE "u0"
Pay(c) ==
  LET z == R(1..16) IN
  CASE z <= 3 -> P("x", << >>, 0, "ok")
    [] z \in {4, 5} -> P("x", << >>, R({2, 6, 11, 12, 3}), "rev")
    [] z = 6 -> P("x", << >>, 0, "throw")
    [] z \in 7..11 -> P("x", << >>, R({0, 1}), "reply")
    [] z = 12 -> P("x", << >>, R({4, 11}), "replyrev")
    [] z = 13 -> P("x", << >>, R({0, 1}), "reply2")
    [] OTHER -> P("x", <<R(NetNames)>>, R({0, 1}), "send")
FeeVals(n) == [i \in 1..n |-> R(0..4)]
AFee == IF R(1..4) = 1 THEN NoFee ELSE [net |-> R({"A", "B", "C"}), v |-> FeeVals(R(0..4))]
AnyMsg(c) ==
  LET svc == RS(<<"s1", "s1", "s2", "s3", "bmc">>)
      kind == R(1..6)
      t == R({"Init", "Link", "Unlink", "Claim", "Response", "junk", "Nothing"})
      sn == IF kind = 1 THEN -R(1..3) ELSE R(0..3)
      p == IF kind = 1 THEN P("err", << >>, R(0..5), "")
           ELSE IF svc = "bmc" THEN
             CASE t = "Init" -> P(t, <<R({"A", "C", "D"}), R({"B", "D2"})>>, 0, "")
               [] t = "Link" -> P(t, <<R({"A", "C", "D", "D2"})>>, 0, "")
               [] t = "Unlink" -> P(t, <<R({"A", "C", "D", "D2"})>>, 0, "")
               [] t = "Claim" -> P(t, << >>, R(0..5), R(Users \cup {"bad"}))
               [] t = "Response" -> P(t, << >>, R(0..2), "")
               [] OTHER -> P(t, << >>, 0, "")
           ELSE Pay(c)
  IN Msg(R({"A", "B", "C", "D"} \ {c}), IF R(1..3) = 1 THEN R(NetNames) ELSE c, svc, sn, p,
         IF sn < 0 \/ (svc = "bmc" /\ t = "Response") THEN -R(1..9) ELSE R(1..9), AFee)
Svc(c) == RS(<<"s1", "s1", "s2">>)
SvcAddr(c, svc) == IF R(1..12) = 1 THEN R({"p1", "p2", "u1"}) ELSE IF svc \in Keys(W.S[c].svcs) THEN Val(W.S[c].svcs, svc) ELSE "p1"

Send(c) ==
  LET svc == Svc(c)
      rs == {x \in DOMAIN W.S[c].resp : x[2] # "bmc"}
      r == OneOf(rs, <<"B", "s1", 1>>)
      far == {x \in NetNames \ {c} : Resolve(W.S[c], x) # ""}
      net == IF R(1..15) = 1 THEN R(NetNames) ELSE OneOf(far, R(NetNames))
      sn == R({0, 1, 2, 3, 4})
      fee == Sum(FeeList(W.S[c], net, sn > 0))
  IN IF R(1..3) = 1 /\ (rs # {} \/ R(1..4) = 1)
     THEN {OSend(c, r[1], r[2], -r[3], ReplyP(R({0, 1})), RS(<<0, 0, 2>>), SvcAddr(c, r[2]))}
     ELSE {OSend(c, net, svc, sn, Pay(c), RS(<<fee, fee, fee + 1, fee, IF fee > 0 THEN fee - 1 ELSE 0>>), SvcAddr(c, svc))}
Ready(c) == {a \in {LinkAddrs(W.S[c])[i] : i \in DOMAIN W.S[c].links} : Len(Waiting(W, c, a)) > Rx(W, c, a)}
By(c, l) == IF R(1..12) = 1 THEN R(Users) ELSE Some(At(W.S[c].relays, l, << >>), "u1")
Go(c) ==
  LET l == IF R(1..10) = 1 THEN MyLink(c) ELSE OneOf(Ready(c), MyLink(c))
  IN {[OGo(c, l, By(c, l), RS(<<1, 1, 2, 3, 9>>)) EXCEPT !.off = RS(<<0, 0, 0, 0, 0, 0, 0, 1, -1>>),
       !.vcode = IF R(1..20) = 1 THEN R({26, 0, 33}) ELSE -1,
       !.junk = R(1..25) = 1,
       !.inj = IF R(1..5) = 1 THEN [i \in 1..R(1..3) |-> AnyMsg(c)] ELSE << >>]}
OFrag(c, l, u, n, idx, i, kk) == [ch |-> c, op |-> "frag", link |-> l, by |-> u, n |-> n, off |-> 0, inj |-> << >>, vcode |-> -1,
                                  junk |-> FALSE, idx |-> idx, i |-> i, k |-> kk]
FragSeq(c) ==
  LET l == OneOf(Ready(c), MyLink(c))  u == By(c, l)  n == R({1, 2, 3})  kk == R(2..4)
      good == [i \in 1..kk |-> OFrag(c, l, u, n, IF i = 1 THEN -(kk - 1) ELSE kk - i, i, kk)]
      z == R(1..8)
      j == R(2..kk)
  IN CASE z = 1 -> SubSeq(good, 1, j - 1) \o SubSeq(good, j + 1, kk)          \* one is missing
       [] z = 2 -> SubSeq(good, 1, j) \o SubSeq(good, j, kk)                  \* one comes twice
       [] z = 3 -> SubSeq(good, 1, j - 1) \o good                             \* begun again
       [] z = 4 -> [good EXCEPT ![j].i = R(2..kk)]                            \* a wrong part
       [] z = 5 -> SubSeq(good, 1, j) \o <<[good[j] EXCEPT !.by = R(Users)]>> \o SubSeq(good, j + 1, kk)
       [] OTHER -> good
Claim(c) ==
  LET ks == {x \in DOMAIN W.S[c].rew : x[1] # Me \/ W.S[c].fh # "" \/ R(1..10) = 1}
      r == OneOf(ks, <<"u1", c>>)
      u == IF r[1] = Me THEN (IF W.S[c].fh = "" THEN "u3" ELSE W.S[c].fh) ELSE r[1]
      net == IF R(1..10) = 1 THEN R(NetNames) ELSE r[2]
  IN OClaim(c, net, RS(<<"u1", "u2", "u3", "u2", "bad">>), u,
            IF net = c THEN 0 ELSE Sum(FeeList(W.S[c], net, TRUE)) + RS(<<0, 0, 0, 1, -1>>))
Pos(o) == IF "val" \in DOMAIN o /\ o.val < 0 THEN [o EXCEPT !.val = 0] ELSE o
Admin(c) ==
  LET s == W.S[c]  n == R(NetNames)  v == R(1..2)
      z == CASE Mode = "fees" -> RS(<<17, 17, 18, 18, 16, 16, 19, 20, 20, 21, R(1..21)>>)
             [] Mode \in {"flow", "frag"} -> RS(<<19, 19, 20, 3, 4, 10, R(1..21), R(1..21)>>)
             [] OTHER -> R(1..21)
      A(op) == [O(c, op) EXCEPT !.by = Adm(c)]
  IN CASE z = 1 -> [net |-> n, who |-> "v1"] @@ A("addVerifier")
       [] z = 2 -> [net |-> n] @@ A("removeVerifier")
       [] z = 3 -> [svc |-> R({"s1", "s2", "s3", "bmc", "x-y"}), who |-> R({"p1", "p2"})] @@ A("addService")
       [] z = 4 -> [svc |-> R({"s1", "s2", "s3"})] @@ A("removeService")
       [] z = 5 -> [link |-> R(LinkNames)] @@ A("addLink")
       [] z = 6 -> [link |-> R({x \in LinkNames : NetOf(x) \notin Keys(s.links)}), nid |-> R(0..4)] @@ A("addBTPLink")
       [] z = 7 -> [link |-> MyLink(c), nid |-> R(0..6)] @@ A("setBTPLinkNetworkId")
       [] z \in {8, 9} -> [link |-> MyLink(c)] @@ A("removeLink")
       [] z = 10 -> [net |-> n, via |-> R(NetNames)] @@ A("addRoute")
       [] z = 11 -> [net |-> OneOf(Keys(s.routes), n)] @@ A("removeRoute")
       [] z = 12 -> [link |-> MyLink(c), who |-> R(Users)] @@ A("addRelay")
       [] z = 13 -> LET l == MyLink(c) IN [link |-> l, who |-> IF R(1..3) = 1 THEN R(Users) ELSE Some(At(s.relays, l, << >>), "u1")] @@ A("removeRelay")
       [] z = 14 -> [who |-> R(Users)] @@ A("addOwner")
       [] z = 15 -> [who |-> IF R(1..5) = 1 THEN R(Users) ELSE Some(s.owners, R(Users))] @@ A("removeOwner")
       [] z = 16 -> [who |-> R(Users)] @@ A("setFeeHandler")
       [] z \in {17, 18} -> [dsts |-> [i \in 1..v |-> R(NetNames)], vals |-> [i \in 1..(IF R(1..8) = 1 THEN 3 - v ELSE v) |->
                        IF R(1..12) = 1 THEN <<1, -1>> ELSE FeeVals(RS(<<0, 2, 2, 4, 4, 3>>))]] @@ A("setFeeTable")
       [] z = 19 -> [on |-> R(1..3) = 1] @@ O(c, "cs")
       [] z = 20 -> [on |-> R(1..2) = 1] @@ O(c, "errmode")
       [] OTHER -> [val |-> R(1..3)] @@ A("fallback")
DropMsg(c) ==
  LET l == MyLink(c) sn == RS(<<0, 0, 1, 2, -1>>)
      net == IF NetOf(l) = "" \/ R(1..4) = 1 THEN R(NetNames) ELSE NetOf(l)
  IN [net |-> net, seq |-> Rx(W, c, IF Resolve(W.S[c], net) = "" THEN l ELSE Resolve(W.S[c], net)) + RS(<<1, 1, 1, 1, 2, 0>>),
      svc |-> RS(<<"s1", "s1", "s2", "s3">>), sn |-> sn, nsn |-> IF sn < 0 THEN -R(0..2) ELSE R({5, 6, 7, 0, -1}),
      fee |-> AFee] @@ [O(c, "dropMessage") EXCEPT !.by = Adm(c)]
\* one step: a few calls
Calls ==
  LET c == R(Chains)
      busy == OneOf({x \in Chains : Ready(x) # {}}, c)
      z == R(1..40)
      w == CASE Mode = "flow"  -> <<14, 30, 32, 34, 36>>
             [] Mode = "fees"  -> <<10, 22, 31, 33, 36>>
             [] Mode = "frag"  -> <<8, 11, 12, 37, 37>>
             [] OTHER          -> <<5, 11, 13, 14, 15>>
  IN CASE z <= w[1] -> <<R(Send(c))>>
       [] z <= w[2] -> <<R(Go(busy))>>
       [] z <= w[3] -> LET cs == {x \in Chains : \E r \in DOMAIN W.S[x].rew : r[1] # Me \/ W.S[x].fh # ""}
                       IN IF cs = {} /\ R(1..4) > 1 THEN <<R(Send(c))>> ELSE <<Claim(IF R(1..12) = 1 THEN c ELSE OneOf(cs, c))>>
       [] z <= w[4] -> FragSeq(busy)
       [] z <= w[5] -> <<DropMsg(c)>>
       [] OTHER -> <<Admin(c)>>
GInit == /\ k \in 1..5
         /\ W = ExecAll(W0, Start(k))
         /\ hist = << >>
GNext == \E os \in {Calls} :
  LET ps == [i \in DOMAIN os |-> Pos(os[i])]
  IN     /\ hist' = hist \o ps
            /\ W' = ExecAll(W, ps)
            /\ k' = k
\* the start is added by the printing
MaxOps == atoi(IOEnv.GENLEN)
Say == Len(hist) >= MaxOps => PrintT("SCN" \o ToJson([ops |-> Start(k) \o hist]))
Stop == Len(hist) < MaxOps
GSpec == GInit /\ [][GNext]_<<W, hist, k>>
=============================================================================
