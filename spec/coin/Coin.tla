-------------------------------- MODULE Coin --------------------------------
(* The native coin service (javascore/nativecoin) on two networks, each with   *)
(* its IRC31 tokens, over BMCs that deliver each message once, in any order,   *)
(* or report an error for the request.  A transfer is held (locked) until its  *)
(* answer: then it is gone and the fee is kept, or all of it can be reclaimed. *)
EXTENDS Integers, Sequences, FiniteSets

Nets == {"A", "B"}
Other(n) == IF n = "A" THEN "B" ELSE "A"
Accts == {"u1", "u2", "k1"}                   \* k1 is a contract
All == Accts \cup {"ncs"}
Coins == {"NA", "NB", "T"}
Home(n) == IF n = "A" THEN "NA" ELSE "NB"
Rich == 100000

Ext(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
In(q, x) == \E i \in DOMAIN q : q[i] = x
RECURSIVE Sum(_, _, _)
\* of field f in the assets q of coin c
Sum(q, c, f) == IF q = << >> THEN 0 ELSE (IF Head(q)[1] = c THEN Head(q)[f] ELSE 0) + Sum(Tail(q), c, f)

Net0 == [nat |-> [a \in All |-> IF a = "ncs" THEN 0 ELSE Rich], tok |-> [c \in Coins |-> [a \in All |-> 0]],
         lock |-> [c \in Coins |-> [a \in Accts |-> 0]], ref |-> [c \in Coins |-> [a \in Accts |-> 0]],
         fee |-> [c \in Coins |-> 0], sn |-> 0, ratio |-> 10, reg |-> << >>, owners |-> << >>, tx |-> << >>,
         appr |-> [a \in Accts |-> FALSE], grant |-> TRUE, down |-> FALSE]
World0 == [net |-> [n \in Nets |-> Net0], pool |-> << >>]

Out(w, ok, ev, sent, hook) == [w |-> w, ok |-> ok, ev |-> ev, sent |-> sent, hook |-> hook]
No(w) == Out(w, FALSE, << >>, << >>, "none")
Yes(w) == Out(w, TRUE, << >>, << >>, "none")

IsOwner(N, a) == a = "own" \/ In(N.owners, a)
Msg(t, n, dst, sn, from, to, assets, code) ==
  [t |-> t, src |-> n, dst |-> dst, sn |-> sn, from |-> from, to |-> to, assets |-> assets, code |-> code]
Post(w, m) == IF m.dst \in Nets THEN [w EXCEPT !.pool = Append(@, m)] ELSE w

FeeOf(N, v) == LET f == (v * N.ratio) \div 10000 IN IF f = 0 THEN 1 ELSE f
\* the coins q (<<coin, value>>) have been taken from the sender
Send(w, n, by, net, to, q) ==
  LET N == w.net[n]  s == N.sn + 1
      det == [i \in DOMAIN q |-> <<q[i][1], q[i][2] - FeeOf(N, q[i][2]), FeeOf(N, q[i][2])>>]
      m == Msg("req", n, net, s, by, to, [i \in DOMAIN q |-> <<det[i][1], det[i][2]>>], 0)
      N2 == [N EXCEPT !.sn = s, !.lock = [c \in Coins |-> [a \in Accts |-> N.lock[c][a] + (IF a = by THEN Sum(q, c, 2) ELSE 0)]],
                      !.tx = Ext(@, s, [from |-> by, to |-> <<net, to>>, assets |-> det])]
  IN IF net \notin {Other(n), "C"} \/ to = "" \/ N.down \/ \E i \in DOMAIN q : q[i][2] < 1 \/ det[i][2] < 1 THEN No(w)
     ELSE Out(Post([w EXCEPT !.net[n] = N2], m), TRUE, <<<<"TransferStart", by, <<net, to>>, s, det>>>>, <<m>>, "none")
SendNat(w, n, o) ==
  LET w1 == [w EXCEPT !.net[n].nat = [@ EXCEPT ![o.by] = @ - o.v, !["ncs"] = @ + o.v]] r == Send(w1, n, o.by, o.net, o.to, <<<<Home(n), o.v>>>>)
  IN IF o.v < 1 \/ w.net[n].nat[o.by] < o.v \/ ~r.ok THEN No(w) ELSE r
SendBatch(w, n, o) ==
  LET N == w.net[n]
      q == [i \in DOMAIN o.coins |-> <<o.coins[i], o.vs[i]>>]
      N1 == [N EXCEPT !.nat = [@ EXCEPT ![o.by] = @ - o.v, !["ncs"] = @ + o.v],
                      !.tok = [c \in Coins |-> [@[c] EXCEPT ![o.by] = @ - Sum(q, c, 2), !["ncs"] = @ + Sum(q, c, 2)]]]
      r == Send([w EXCEPT !.net[n] = N1], n, o.by, o.net, o.to, IF o.v > 0 THEN Append(q, <<Home(n), o.v>>) ELSE q)
  IN IF Len(o.coins) # Len(o.vs) THEN No(w)
     ELSE IF N.nat[o.by] < o.v \/ ~N.appr[o.by] \/ \E i \in DOMAIN q : ~In(N.reg, q[i][1]) \/ q[i][2] < 0 THEN No(w)
     ELSE IF \E c \in Coins : Sum(q, c, 2) > N.tok[c][o.by] THEN No(w)
     ELSE IF ~r.ok THEN No(w) ELSE r
SendTok(w, n, o) == IF o.v < 1 THEN No(w) ELSE SendBatch(w, n, [o EXCEPT !.v = 0])

Take(w, n, by, coin, v) ==
  LET N == w.net[n]
      w1 == [w EXCEPT !.net[n].ref[coin][by] = @ - v]
  IN IF coin \notin Coins \/ v < 1 THEN No(w)
     ELSE IF N.ref[coin][by] < v THEN No(w)
     ELSE IF coin = Home(n)
     THEN IF N.nat["ncs"] < v THEN No(w) ELSE Yes([w1 EXCEPT !.net[n].nat = [@ EXCEPT !["ncs"] = @ - v, ![by] = @ + v]])
     ELSE Yes([w1 EXCEPT !.net[n].tok[coin] = [@ EXCEPT !["ncs"] = @ - v, ![by] = @ + v]])
\* the contract k1 was paid: it may refuse, or reclaim something in turn
Hook(r, n, who, arm) ==
  IF ~r.ok \/ who # "k1" \/ arm.a = "none" THEN r
  ELSE IF arm.a = "rev" THEN [r EXCEPT !.ok = FALSE]
  ELSE LET q == Take(r.w, n, "k1", arm.coin, arm.v) IN IF q.ok THEN [r EXCEPT !.w = q.w, !.hook = "ok"] ELSE [r EXCEPT !.hook = "fail"]
Reclaim(w, n, o) == LET r == Hook(Take(w, n, o.by, o.coin, o.v), n, o.by, o.arm) IN IF r.ok THEN r ELSE No(w)

Request(w, n, m, arm) ==
  LET N == w.net[n]  x == Sum(m.assets, Home(n), 2)
      known(i) == m.assets[i][1] = Home(n) \/ In(N.reg, m.assets[i][1])
      token == \E i \in DOMAIN m.assets : m.assets[i][1] # Home(n)
      N1 == [N EXCEPT !.nat = [@ EXCEPT !["ncs"] = @ - x, ![m.to] = @ + x],
                      !.tok = [c \in Coins |-> IF c = Home(n) THEN @[c] ELSE [@[c] EXCEPT ![m.to] = @ + Sum(m.assets, c, 2)]]]
      a == Msg("res", n, m.src, m.sn, "", "", << >>, 0)
      r == Hook(Yes([w EXCEPT !.net[n] = N1]), n, IF m.assets = << >> THEN "" ELSE m.to, arm)
  IN IF m.to \notin All \/ (\E i \in DOMAIN m.assets : ~known(i) \/ m.assets[i][2] < 1) \/ N.down \/ (token /\ ~N.grant) THEN No(w)
     ELSE IF x > N.nat["ncs"] \/ (x > 0 /\ m.to = "ncs") THEN No(w)
     ELSE IF ~r.ok THEN No(w)
     ELSE [r EXCEPT !.w = Post(@, a), !.sent = <<a>>]
Answer(w, n, sn, code) ==
  LET N == w.net[n]  t == N.tx[sn]
      gone(c) == Sum(t.assets, c, 2) + Sum(t.assets, c, 3)
      free == [N EXCEPT !.tx = Del(@, sn), !.lock = [c \in Coins |-> [@[c] EXCEPT ![t.from] = @ - gone(c)]]]
      token == \E i \in DOMAIN t.assets : t.assets[i][1] # Home(n)
      done == [free EXCEPT !.fee = [c \in Coins |-> @[c] + Sum(t.assets, c, 3)],
                           !.tok = [c \in Coins |-> IF c = Home(n) THEN @[c] ELSE [@[c] EXCEPT !["ncs"] = @ - Sum(t.assets, c, 2)]]]
      back == [free EXCEPT !.ref = [c \in Coins |-> [@[c] EXCEPT ![t.from] = @ + gone(c)]]]
      ev == <<<<"TransferEnd", t.from, sn, code>>>>
  IN IF sn \notin DOMAIN N.tx THEN Yes(w)
     ELSE IF code = 0 /\ token /\ ~N.grant THEN No(w)
     ELSE Out([w EXCEPT !.net[n] = IF code = 0 THEN done ELSE back], TRUE, ev, << >>, "none")
Arrive(w, n, m, arm) ==
  CASE m.t = "req" -> Request(w, n, m, arm)
    [] m.t = "res" -> Answer(w, n, m.sn, m.code)
    [] m.t = "unk" -> [Yes(w) EXCEPT !.ev = <<<<"UnknownResponse", m.src, m.sn>>>>]
    [] OTHER -> IF w.net[n].down THEN No(w)
                ELSE LET a == Msg("unk", n, m.src, m.sn, "", "", << >>, 1) IN Out(Post(w, a), TRUE, << >>, <<a>>, "none")
Took(w, i) == [w EXCEPT !.pool = Drop(@, i)]
Deliver(w, i, arm) == LET m == w.pool[i]  r == Arrive(Took(w, i), m.dst, m, arm) IN IF r.ok THEN r ELSE No(w)
\* the BMC reports that a message was not delivered: that matters if it was a request
Error(w, i) == LET m == w.pool[i]  r == Answer(Took(w, i), m.src, m.sn, 1)
               IN IF m.t # "req" THEN Yes(Took(w, i)) ELSE IF r.ok THEN r ELSE No(w)
\* the service of the other side (another implementation) refuses with a code
Reject(w, i, code) == LET m == w.pool[i] IN Yes(Post(Took(w, i), Msg("res", m.dst, m.src, m.sn, "", "", << >>, code)))

Do(w, o) ==
  LET N == w.net[o.n] IN
  CASE o.op = "nat" -> SendNat(w, o.n, o)
    [] o.op = "tok" -> SendTok(w, o.n, o)
    [] o.op = "batch" -> SendBatch(w, o.n, o)
    [] o.op = "reclaim" -> Reclaim(w, o.n, o)
    [] o.op = "deliver" -> IF o.how # "ok" THEN No(w) ELSE Deliver(w, o.i, o.arm)
    [] o.op = "error" -> IF o.how # "ok" THEN No(w) ELSE Error(w, o.i)
    [] o.op = "reject" -> Reject(w, o.i, o.code)
    [] o.op = "foreign" -> LET r == Arrive(w, o.n, Msg(o.t, "C", o.n, o.sn, "someone", o.to, o.assets, 0), o.arm) IN IF r.ok THEN r ELSE No(w)
    [] o.op = "register" -> IF ~IsOwner(N, o.by) \/ o.coin = Home(o.n) \/ In(N.reg, o.coin) THEN No(w)
                            ELSE Yes([w EXCEPT !.net[o.n].reg = Append(@, o.coin)])
    [] o.op = "ratio" -> IF ~IsOwner(N, o.by) \/ o.v < 1 \/ o.v > 9999 THEN No(w) ELSE Yes([w EXCEPT !.net[o.n].ratio = o.v])
    [] o.op = "addOwner" -> IF ~IsOwner(N, o.by) \/ IsOwner(N, o.who) THEN No(w) ELSE Yes([w EXCEPT !.net[o.n].owners = Append(@, o.who)])
    [] o.op = "removeOwner" -> IF ~IsOwner(N, o.by) \/ ~In(N.owners, o.who) THEN No(w)
                               ELSE Yes([w EXCEPT !.net[o.n].owners = SelectSeq(@, LAMBDA x : x # o.who)])
    \* the supply of tokens is up to the owners of the token contract
    [] o.op = "supply" -> IF o.by # "own" \/ o.v < 1 \/ (o.m = "burn" /\ N.tok[o.coin][o.who] < o.v) THEN No(w)
                          ELSE Hook(Yes([w EXCEPT !.net[o.n].tok[o.coin][o.who] = IF o.m = "burn" THEN @ - o.v ELSE @ + o.v]),
                                    o.n, IF o.m = "burn" THEN "" ELSE o.who, o.arm)
    \* the surroundings
    [] o.op = "approve" -> Yes([w EXCEPT !.net[o.n].appr[o.by] = o.v])
    [] o.op = "grant" -> Yes([w EXCEPT !.net[o.n].grant = o.v])
    [] o.op = "down" -> Yes([w EXCEPT !.net[o.n].down = o.v])
    [] o.op = "update" -> Yes(w)
    [] OTHER -> No(w)
Supply(N, c) == N.tok[c]["u1"] + N.tok[c]["u2"] + N.tok[c]["k1"] + N.tok[c]["ncs"]
Pending(N) == SelectSeq([i \in 1..N.sn |-> i], LAMBDA i : i \in DOMAIN N.tx)
Obs(w, n) == LET N == w.net[n] IN
  [nat |-> N.nat, tok |-> N.tok, sup |-> [c \in Coins |-> Supply(N, c)], lock |-> N.lock, ref |-> N.ref, fee |-> N.fee, ratio |-> N.ratio,
   names |-> <<Home(n)>> \o N.reg, owners |-> {"own"} \cup {N.owners[i] : i \in DOMAIN N.owners},
   ids |-> [c \in Coins |-> IF c = Home(n) THEN "native" ELSE IF In(N.reg, c) THEN "hash" ELSE "none"],
   tx |-> [i \in DOMAIN Pending(N) |-> LET s == Pending(N)[i] IN <<s, N.tx[s].from, N.tx[s].to, N.tx[s].assets>>]]
=============================================================================
