------------------------------- MODULE BmcNet -------------------------------
(* Several BMCs and the relays between them: W.S the BMCs, W.q what each has sent on each *)
(* link since it exists, W.cur the relay message that is being cut into fragments.        *)
EXTENDS Bmc

Chains == {"A", "B", "C"}
W0 == [S |-> [c \in Chains |-> New(c)], q |-> Empty, cur |-> Empty]
Min(a, b) == IF a < b THEN a ELSE b

\* the messages a relay finds for chain c on the link, from a place next to the expected one
Waiting(W, c, link) == At(W.q, <<NetOf(link), c>>, << >>)
Rx(W, c, link) == IF IsLink(W.S[c], link) THEN Val(W.S[c].links, NetOf(link)).rx ELSE 0
Mat(W, o) ==
  IF o.op = "relay" \/ (o.op = "frag" /\ o.i = 1)
  THEN LET q == Waiting(W, o.ch, o.link)
           seq == Rx(W, o.ch, o.link) + 1 + o.off
       IN IF o.inj # << >> THEN [ms |-> o.inj, seq |-> 0, any |-> TRUE]
          ELSE [ms |-> IF seq < 1 THEN << >> ELSE SubSeq(q, seq, Min(seq + o.n - 1, Len(q))), seq |-> seq, any |-> FALSE]
  ELSE IF o.op = "frag" THEN At(W.cur, <<o.ch, o.link>>, [ms |-> << >>, seq |-> 0, any |-> FALSE]) ELSE Empty
Full(W, o) ==
  IF o.op \notin {"relay", "frag"} THEN o
  ELSE LET m == Mat(W, o) IN [g |-> 0, ms |-> m.ms, seq |-> m.seq, any |-> m.any] @@ o

Target(s, x) == IF x.nid = 0 THEN x.next ELSE CHOOSE a \in DOMAIN s.nid : s.nid[a] = x.nid
RECURSIVE Enq(_, _, _, _)
Enq(q, s, c, xs) ==
  IF xs = << >> THEN q
  ELSE LET k == <<c, NetOf(Target(s, Head(xs)))>>
       IN Enq(Put(q, k, Append(At(q, k, << >>), Head(xs).m)), s, c, Tail(xs))
Exec(W, o0) ==
  LET o == Full(W, o0)  c == o0.ch  s == Fresh(W.S[c])
      cur == IF o.op = "frag" /\ o.i = 1 THEN Put(W.cur, <<c, o.link>>, [ms |-> o.ms, seq |-> o.seq, any |-> o.any]) ELSE W.cur
  IN IF Errs(s, o) # {} THEN [W EXCEPT !.cur = cur]
     ELSE LET x == Do(s, o)
              q == IF o.op \in {"addLink", "addBTPLink", "removeLink"} THEN Put(W.q, <<c, NetOf(o.link)>>, << >>) ELSE W.q
          IN [S |-> [W.S EXCEPT ![c] = x], q |-> Enq(q, x, c, x.msgs), cur |-> cur]
RECURSIVE ExecAll(_, _)
ExecAll(W, os) == IF os = << >> THEN W ELSE ExecAll(Exec(W, Head(os)), Tail(os))

----------------------------------------------------------------------------
(* networks to start from *)
O(c, op) == [ch |-> c, op |-> op, by |-> Root]
OLink(c, op, l) == [link |-> l] @@ O(c, op)
OVer(c, n) == [net |-> n, who |-> "v1"] @@ O(c, "addVerifier")
OSvc(c, x, a) == [svc |-> x, who |-> a] @@ O(c, "addService")
ORelay(c, l, u) == [link |-> l, who |-> u] @@ O(c, "addRelay")
OBtp(c, l, n) == [link |-> l, nid |-> n] @@ O(c, "addBTPLink")
OFee(c, d, v) == [dsts |-> d, vals |-> v] @@ O(c, "setFeeTable")
ORoute(c, n, v) == [net |-> n, via |-> v] @@ O(c, "addRoute")
OGo(c, l, u, n) == [ch |-> c, op |-> "relay", link |-> l, by |-> u, n |-> n, off |-> 0, inj |-> << >>, vcode |-> -1, junk |-> FALSE]
OSend(c, net, svc, sn, p, val, a) ==
  [ch |-> c, op |-> "sendMessage", by |-> a, net |-> net, svc |-> svc, sn |-> sn, p |-> p, val |-> val]
OClaim(c, net, who, u, val) == [ch |-> c, op |-> "claimReward", by |-> u, net |-> net, who |-> who, val |-> val]

Pair(a, b, ra, rb) == <<OVer(a, b), OVer(b, a), OLink(a, "addLink", b), OLink(b, "addLink", a),
                        ORelay(a, b, "u1"), ORelay(b, a, "u1")>> \o
                      (IF ra THEN <<ORelay(a, b, "u2")>> ELSE << >>) \o (IF rb THEN <<ORelay(b, a, "u3")>> ELSE << >>)
BPair(a, b, x, y) == <<OVer(a, b), OVer(b, a), OBtp(a, b, x), OBtp(b, a, y), ORelay(a, b, "u1"), ORelay(b, a, "u2")>>
Svcs == <<OSvc("A", "s1", "p1"), OSvc("B", "s1", "p1"), OSvc("C", "s1", "p1"), OSvc("A", "s2", "p2"), OSvc("B", "s2", "p2")>>
Line == Svcs \o Pair("A", "B", TRUE, TRUE) \o Pair("B", "C", FALSE, TRUE)
Known == <<OGo("A", "B", "u1", 5), OGo("B", "A", "u1", 5), OGo("C", "B", "u1", 5), OGo("B", "C", "u1", 5)>>
Fees == <<OFee("A", <<"B", "C">>, <<<<1, 2>>, <<1, 2, 3, 4>>>>), OFee("B", <<"A", "C">>, <<<<2, 1>>, <<3, 1>>>>),
          OFee("C", <<"B", "A">>, <<<<1, 1>>, <<1, 2, 2, 1>>>>), [who |-> "u3"] @@ O("B", "setFeeHandler")>>
Start(k) ==
  CASE k = 1 -> Line \o Known \o Fees
    [] k = 2 -> Svcs \o BPair("A", "B", 1, 1) \o BPair("B", "C", 2, 1) \o
                <<OGo("A", "B", "u1", 5), OGo("B", "A", "u2", 5), OGo("C", "B", "u2", 5), OGo("B", "C", "u1", 5)>> \o Fees
    [] k = 3 -> Line \o Pair("A", "C", FALSE, FALSE) \o Known \o
                <<OGo("A", "C", "u1", 5), OGo("C", "A", "u1", 5), OGo("A", "B", "u1", 5), OGo("C", "B", "u1", 5),
                  OFee("A", <<"B", "C">>, <<<<1, 2>>, <<2, 2>>>>), OFee("B", <<"A", "C">>, <<<<2, 1>>, <<3, 1>>>>)>>
    [] k = 4 -> Line \o <<ORoute("A", "C", "B"), OFee("A", <<"B", "C">>, <<<<1, 2>>, <<1, 2, 3, 4>>>>),
                          OFee("B", <<"A">>, <<<<2, 1>>>>)>>
    [] k = 5 -> Line \o Known
=============================================================================
