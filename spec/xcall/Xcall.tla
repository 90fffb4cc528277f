-------------------------------- MODULE Xcall --------------------------------
(* The arbitrary call service (javascore/xcall) on two networks over BMCs that *)
(* deliver each message once, in any order, or report an error for it.         *)
(* A call is registered on arrival, executed once by anyone, and answered if   *)
(* it carries rollback data; the rollback can be executed once, and only after *)
(* a failure is known.  Fees: the protocol's share goes to its handler (or is  *)
(* kept until there is one), everything else to the BMC.                       *)
EXTENDS Integers, Sequences, FiniteSets

Nets == {"A", "B"}
Other(n) == IF n = "A" THEN "B" ELSE "A"
Contracts == {"d1", "d2"}                     \* accounts that are contracts with a handler
IsContract(a) == a \in {"d1", "d2", "cx"}     \* cx: a contract address where nothing is
MaxData == 2048   MaxRollback == 1024
None == [a |-> "null", n |-> 0, z |-> 0]      \* no rollback data
Plain == [a |-> "ok", n |-> 0, z |-> 0]

Ext(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Net0 == [sn |-> 0, rid |-> 0, nsn |-> 0, req |-> << >>, prox |-> << >>, admin |-> "own", handler |-> "none",
         fee |-> 0, bfee |-> 0, down |-> FALSE, x |-> 0, h1 |-> 0, h2 |-> 0, bmc |-> 0]
World0 == [net |-> [n \in Nets |-> Net0], pool |-> << >>]

Out(w, ok, ev, calls, sent, ret) == [w |-> w, ok |-> ok, ev |-> ev, calls |-> calls, sent |-> sent, ret |-> ret]
No(w) == Out(w, FALSE, {}, << >>, << >>, 0)
Yes(w) == Out(w, TRUE, {}, << >>, << >>, 0)

Fee(w, n, rb) == w.net[n].fee + w.net[n].bfee * (IF rb THEN 2 ELSE 1)
ReqMsg(n, o, s) == [t |-> "req", src |-> n, dst |-> o.net, val |-> o.val, bsn |-> IF o.rb.a = "null" THEN 0 ELSE s,
                    from |-> o.by, to |-> o.to, sn |-> s, rb |-> o.rb.a # "null", data |-> o.data, code |-> 0]
ResMsg(n, p, code) == [t |-> "res", src |-> n, dst |-> p.net, val |-> 0, bsn |-> 0 - p.sn,
                       from |-> "", to |-> "", sn |-> p.sn, rb |-> FALSE, data |-> None, code |-> code]
Send(w, n, o) ==
  LET N == w.net[n]  rb == o.rb.a # "null"  s == N.sn + 1
      m == [ReqMsg(n, o, s) EXCEPT !.val = o.val - N.fee]
      pay == IF N.handler # "none" THEN [N EXCEPT ![N.handler] = @ + N.fee] ELSE [N EXCEPT !.x = @ + N.fee]
      N2 == [pay EXCEPT !.sn = s, !.nsn = @ + 1, !.bmc = @ + o.val - N.fee,
                        !.req = IF rb THEN Ext(@, s, [from |-> o.by, rb |-> o.rb, en |-> FALSE]) ELSE @]
  IN IF (rb /\ ~IsContract(o.by)) \/ o.data.z > MaxData \/ (rb /\ o.rb.z > MaxRollback)
        \/ o.net # Other(n) \/ o.to = "" \/ o.val < Fee(w, n, rb) \/ N.down
     THEN No(w)
     ELSE Out([w EXCEPT !.net[n] = N2, !.pool = Append(@, m)], TRUE,
              {<<"CallMessageSent", o.by, <<o.net, o.to>>, s, N2.nsn>>}, << >>, <<m>>, s)

\* a contract is called with data; who is the caller it is told of
Dapp(w, n, a, who, d) ==
  LET c == <<[n |-> n, at |-> a, who |-> who, d |-> d]>>
      r == Send(w, n, [by |-> a, net |-> Other(n), to |-> "d2", data |-> Plain, rb |-> None, val |-> 0])
  IN IF a \notin Contracts THEN [o |-> Yes(w), code |-> -1]
     ELSE CASE d.a \in {"ok", "re", "empty"} -> [o |-> [Yes(w) EXCEPT !.calls = c], code |-> 0]
       [] d.a = "rev" -> [o |-> [Yes(w) EXCEPT !.calls = c], code |-> IF d.n = 0 THEN -1 ELSE d.n]
       [] d.a = "send" -> IF r.ok THEN [o |-> [r EXCEPT !.calls = c], code |-> 0] ELSE [o |-> [Yes(w) EXCEPT !.calls = c], code |-> 7]
       [] OTHER -> [o |-> [Yes(w) EXCEPT !.calls = c], code |-> -1]

Deliver(w, i) ==
  LET m == w.pool[i]  w1 == [w EXCEPT !.pool = Drop(@, i)]  N == w.net[m.dst]
  IN IF m.t = "req"
     THEN Out([w1 EXCEPT !.net[m.dst].rid = @ + 1,
                         !.net[m.dst].prox = Ext(@, N.rid + 1, [net |-> m.src, from |-> m.from, to |-> m.to, sn |-> m.sn, rb |-> m.rb, data |-> m.data])],
              TRUE, {<<"CallMessage", <<m.src, m.from>>, m.to, m.sn, N.rid + 1>>}, << >>, << >>, 0)
     ELSE IF m.sn \notin DOMAIN N.req THEN Yes(w1)
     ELSE IF m.code = 0
     THEN [Yes([w1 EXCEPT !.net[m.dst].req = Del(@, m.sn)]) EXCEPT !.ev = {<<"ResponseMessage", m.sn, 0>>}]
     ELSE [Yes([w1 EXCEPT !.net[m.dst].req[m.sn].en = TRUE]) EXCEPT
             !.ev = {<<"ResponseMessage", m.sn, m.code>>, <<"RollbackMessage", m.sn>>}]
\* the BMC reports that a two-way message was not delivered
Error(w, i) ==
  LET m == w.pool[i]
  IN Deliver([w EXCEPT !.pool[i] = [m EXCEPT !.t = "res", !.dst = m.src, !.code = -2]], i)

Exec(w, n, id) ==
  IF id \notin DOMAIN w.net[n].prox THEN No(w)
  ELSE LET p == w.net[n].prox[id]
           w1 == [w EXCEPT !.net[n].prox = Del(@, id)]
           D == Dapp(w1, n, p.to, <<p.net, p.from>>, p.data)
           m == ResMsg(n, p, D.code)
           ev == D.o.ev \cup {<<"CallExecuted", id, D.code>>}
       IN IF p.rb /\ w.net[n].down THEN No(w)
          ELSE IF p.rb
          THEN Out([D.o.w EXCEPT !.pool = Append(@, m), !.net[n].nsn = @ + 1], TRUE, ev, D.o.calls, Append(D.o.sent, m), 0)
          ELSE Out(D.o.w, TRUE, ev, D.o.calls, D.o.sent, 0)
Roll(w, n, s) ==
  IF s \notin DOMAIN w.net[n].req \/ ~w.net[n].req[s].en THEN No(w)
  ELSE LET r == w.net[n].req[s]
           D == Dapp([w EXCEPT !.net[n].req = Del(@, s)], n, r.from, <<n, "xcall">>, r.rb)
       IN [D.o EXCEPT !.ev = @ \cup {<<"RollbackExecuted", s, D.code>>}]

Do(w, o) ==
  CASE o.op = "send" -> Send(w, o.n, o)
    [] o.op = "deliver" -> IF o.how # "ok" THEN No(w) ELSE Deliver(w, o.i)
    [] o.op = "error" -> IF o.how # "ok" THEN No(w) ELSE Error(w, o.i)
    \* an answer to what has been answered
    [] o.op = "stray" -> IF o.k \in DOMAIN w.net[o.n].req THEN No(w) ELSE Yes(w)
    [] o.op = "drop" -> Yes([w EXCEPT !.pool = Drop(@, o.i)])
    [] o.op = "exec" -> Exec(w, o.n, o.k)
    [] o.op = "roll" -> Roll(w, o.n, o.k)
    [] o.op = "admin" -> IF o.by # "own" THEN No(w) ELSE Yes([w EXCEPT !.net[o.n].admin = o.who])
    [] o.op = "handler" -> IF o.by # w.net[o.n].admin THEN No(w)
                           ELSE IF o.who = "none" THEN Yes([w EXCEPT !.net[o.n].handler = "none"])
                           ELSE Yes([w EXCEPT !.net[o.n].handler = o.who, !.net[o.n].x = 0,
                                              !.net[o.n][o.who] = @ + w.net[o.n].x])
    [] o.op = "fee" -> IF o.by # w.net[o.n].admin \/ o.v < 0 THEN No(w) ELSE Yes([w EXCEPT !.net[o.n].fee = o.v])
    \* the surroundings
    [] o.op = "bfee" -> Yes([w EXCEPT !.net[o.n].bfee = o.v])
    [] o.op = "down" -> Yes([w EXCEPT !.net[o.n].down = o.v])
    [] o.op = "update" -> Yes(w)
    [] OTHER -> No(w)
Obs(w, n) == LET N == w.net[n] IN
  [fee |-> N.fee, handler |-> N.handler, admin |-> N.admin, f1 |-> Fee(w, n, FALSE), f2 |-> Fee(w, n, TRUE),
   x |-> N.x, h1 |-> N.h1, h2 |-> N.h2, bmc |-> N.bmc]
=============================================================================
