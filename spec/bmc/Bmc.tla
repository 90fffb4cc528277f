--------------------------------- MODULE Bmc ---------------------------------
(* The BTP Message Center of one network (javascore/bmc): its state, and for   *)
(* each external call the set of codes it may be refused with and, when that   *)
(* is empty, the state, messages and events it leads to.                       *)
(*                                                                             *)
(* Networks are "A".."D".  A BTP address of a BMC is named after its network:  *)
(* "A" is the true one, "A2" another account there, "bad" is no BTP address.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NetOf(a) == CASE a \in {"A", "A2"} -> "A" [] a \in {"B", "B2"} -> "B" []
                 a \in {"C", "C2"} -> "C" [] a \in {"D", "D2"} -> "D" [] OTHER -> ""
Me   == "bmc"               \* the address of the BMC itself
Root == "u0"                \* the owner of the contract

\* revert codes: 0 BTP, 10.. BMC, 40.. BSH
Unknown == 10   Unauth == 11   InvalidSn == 12   HasBMV == 13   NoBMV == 14   HasBSH == 15
NoBSH == 16     HasLink == 17  NoLink == 18      HasBMR == 19   NoBMR == 20   NoRoute == 21
Dropped == 22   BadAddr == 0   BMVFail == 25     BshBase == 40
\* codes of an error message
EUnknown == 1   ENoRoute == 2  ENoBsh == 3       EBsh == 4

----------------------------------------------------------------------------
(* functions as dictionaries, and dictionaries with an order *)
At(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Empty == [x \in {} |-> 0]

Keys(d) == {d[i].k : i \in DOMAIN d}
Ix(d, k) == CHOOSE i \in DOMAIN d : d[i].k = k
Val(d, k) == d[Ix(d, k)].v
PutK(d, k, v) == IF k \in Keys(d) THEN [d EXCEPT ![Ix(d, k)].v = v] ELSE Append(d, [k |-> k, v |-> v])
DelK(d, k) == IF k \notin Keys(d) THEN d
              ELSE [i \in 1..(Len(d) - 1) |-> IF i = Ix(d, k) THEN d[Len(d)] ELSE d[i]]
\* the same removal for a sequence of addresses
DelS(q, x) == LET i == CHOOSE j \in DOMAIN q : q[j] = x
              IN [j \in 1..(Len(q) - 1) |-> IF j = i THEN q[Len(q)] ELSE q[j]]
In(q, x) == \E i \in DOMAIN q : q[i] = x
RECURSIVE Sum(_)
Sum(q) == IF q = << >> THEN 0 ELSE Head(q) + Sum(Tail(q))
Without(q, x) == LET i == CHOOSE j \in DOMAIN q : q[j] = x
                 IN IF In(q, x) THEN SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q)) ELSE q

NoFee == [net |-> "", v |-> << >>]
P(t, l, a, r) == [t |-> t, l |-> l, a |-> a, r |-> r]
Msg(src, dst, svc, sn, p, nsn, fee) ==
  [src |-> src, dst |-> dst, svc |-> svc, sn |-> sn, p |-> p, nsn |-> nsn, fee |-> fee]

New(net) == [net |-> net, bal |-> 0, owners |-> << >>, vers |-> << >>, svcs |-> << >>, links |-> << >>,
             relays |-> Empty, nid |-> Empty, off |-> Empty, routes |-> << >>, fees |-> Empty,
             rew |-> Empty, resp |-> Empty, reqs |-> Empty, fh |-> "", nsn |-> 0, frag |-> Empty,
             csfail |-> FALSE, errfail |-> FALSE,
             msgs |-> << >>, btp |-> << >>, oth |-> << >>, calls |-> << >>, ret |-> 0]
Fresh(s) == [s EXCEPT !.msgs = << >>, !.btp = << >>, !.oth = << >>, !.calls = << >>, !.ret = 0]

----------------------------------------------------------------------------
(* links, routes *)
IsLink(s, a) == NetOf(a) \in Keys(s.links) /\ Val(s.links, NetOf(a)).addr = a
Resolve(s, net) ==
  IF net \in Keys(s.links) THEN Val(s.links, net).addr
  ELSE IF net \in Keys(s.routes) THEN Val(s.links, Val(s.routes, net)).addr
  ELSE LET c == {i \in DOMAIN s.links : \E j \in DOMAIN s.links[i].v.reach : NetOf(s.links[i].v.reach[j]) = net}
       IN IF c = {} THEN "" ELSE s.links[CHOOSE i \in c : \A j \in c : i <= j].v.addr
FeeList(s, net, both) == LET v == At(s.fees, net, << >>)
                         IN IF both THEN v ELSE SubSeq(v, 1, Len(v) \div 2)
IsOwner(s, u) == u = Root \/ In(s.owners, u)

\* a message leaves on a link: by event, or through the chain when the link is a BTP link
CanSend(s, next) == IsLink(s, next) /\ ~(next \in DOMAIN s.nid /\ s.csfail)
Out(s, next, m) ==
  LET n == NetOf(next) t == Val(s.links, n).tx + 1
  IN [s EXCEPT !.links[Ix(s.links, n)].v.tx = t,
               !.msgs = Append(@, IF next \in DOMAIN s.nid
                                  THEN [nid |-> s.nid[next], next |-> "", seq |-> 0, m |-> m]
                                  ELSE [nid |-> 0, next |-> next, seq |-> t, m |-> m])]
Btp(s, m, next, k) ==
  [s EXCEPT !.btp = Append(@, IF m.nsn < 0 THEN [src |-> m.dst, nsn |-> -m.nsn, next |-> next, k |-> k]
                                           ELSE [src |-> m.src, nsn |-> m.nsn, next |-> next, k |-> k])]
Drop(s, prev, seq, m, code) ==
  LET x == Btp(s, m, "", "DROP")
  IN [x EXCEPT !.oth = Append(@, [e |-> "drop", prev |-> prev, seq |-> seq, m |-> m, code |-> code])]

(* fees and rewards *)
AddRew(s, who, net, amt) ==
  IF amt <= 0 THEN s ELSE [s EXCEPT !.rew = Put(@, <<who, net>>, At(@, <<who, net>>, 0) + amt)]
Collect(s, fee) == AddRew(s, Me, fee.net, Sum(fee.v))
Paid(m) == IF m.fee.v = << >> THEN m ELSE [m EXCEPT !.fee.v = Tail(@)]
Accum(s, who, m) == IF m.fee.v = << >> THEN s ELSE AddRew(s, who, m.fee.net, Head(m.fee.v))

----------------------------------------------------------------------------
(* sending on behalf of a service *)
\* refusals of a new message and of a reply
NewErrs(s, to, sn, val) ==
  (IF Resolve(s, to) = "" THEN {NoRoute} ELSE IF ~CanSend(s, Resolve(s, to)) THEN {Unknown} ELSE {}) \cup
  (IF val < Sum(FeeList(s, to, sn # 0)) THEN {Unknown} ELSE {})
ReplyErrs(s, to, svc, sn) ==
  (IF Resolve(s, to) = "" THEN {NoRoute} ELSE IF ~CanSend(s, Resolve(s, to)) THEN {Unknown} ELSE {}) \cup
  (IF <<to, svc, sn>> \notin DOMAIN s.resp THEN {Unknown} ELSE {})
\* sn = -1: the serial number is the network serial number
SendNew(s, to, svc, sn, p, val) ==
  LET n == s.nsn + 1 v == FeeList(s, to, sn # 0)
      m == Msg(s.net, to, svc, IF sn = -1 THEN n ELSE sn, p, n, [net |-> s.net, v |-> v])
      x == AddRew([s EXCEPT !.nsn = n, !.bal = @ + val, !.ret = n], Me, s.net, val - Sum(v))
  IN Btp(Out(x, Resolve(s, to), m), m, Resolve(s, to), "SEND")
Reply(s, to, svc, sn, p, val) ==
  LET r == s.resp[<<to, svc, sn>>]
      m == Msg(s.net, to, svc, 0, p, -r.nsn, r.fee)
      x == AddRew([s EXCEPT !.resp = Del(@, <<to, svc, sn>>), !.bal = @ + val, !.ret = -r.nsn], Me, s.net, val)
  IN Btp(Out(x, Resolve(s, to), m), m, Resolve(s, to), "REPLY")

\* an error goes back where the message came from; what was paid for the way back comes first
Swap(s, m) ==
  LET v == m.fee.v  h == Len(FeeList(s, m.src, FALSE)) IN
  IF h > 0 /\ Len(v) > h THEN SubSeq(v, Len(v) - h + 1, Len(v)) \o SubSeq(v, 1, Len(v) - h) ELSE v
SendError(s, prev, m, ec) ==
  LET e == Msg(s.net, m.src, m.svc, -m.sn, P("err", << >>, ec, ""), -m.nsn, [m.fee EXCEPT !.v = Swap(s, m)])
  IN Btp(Out(s, prev, e), m, prev, "ERROR")

\* messages between BMCs
SendInternal(s, next, p) ==
  LET m == Msg(s.net, NetOf(next), Me, 0, p, s.nsn + 1, NoFee)
  IN Out(Btp([s EXCEPT !.nsn = @ + 1], m, next, "SEND"), next, m)
RECURSIVE Propagate(_, _, _)
Propagate(s, to, p) == IF to = << >> THEN s ELSE Propagate(SendInternal(s, Head(to), p), Tail(to), p)
LinkAddrs(s) == [i \in DOMAIN s.links |-> s.links[i].v.addr]

----------------------------------------------------------------------------
(* a message for this network; result [s, code, ec]: code -1 when it is handled, else the  *)
(* code of its failure and the code to report; s then is the state without its effects     *)
Fail(s, code, ec) == [s |-> s, code |-> code, ec |-> ec]
Good(s) == Fail(s, -1, 0)
RECURSIVE AddAll(_, _)
AddAll(q, l) == IF l = << >> THEN q ELSE AddAll(IF In(q, Head(l)) THEN q ELSE Append(q, Head(l)), Tail(l))

HandleResponse(s, nsn, code) ==
  IF nsn \notin DOMAIN s.reqs THEN Fail(s, Unknown, EUnknown)
  ELSE LET q == s.reqs[nsn]
           x == [s EXCEPT !.reqs = Del(@, nsn),
                          !.oth = Append(@, [e |-> "claimres", who |-> q.caller, net |-> q.dst, nsn |-> nsn, code |-> code])]
       IN Good(IF code = 0 THEN x ELSE AddRew(x, q.caller, q.dst, q.amt))
Internal(s, m) ==
  LET p == m.p IN
  CASE p.t = "Init"   -> IF m.src \in Keys(s.links)
                         THEN Good([s EXCEPT !.links[Ix(s.links, m.src)].v.reach = AddAll(@, p.l)])
                         ELSE Fail(s, NoLink, EUnknown)
    [] p.t = "Link"   -> IF m.src \in Keys(s.links)
                         THEN Good([s EXCEPT !.links[Ix(s.links, m.src)].v.reach = AddAll(@, p.l)])
                         ELSE Fail(s, NoLink, EUnknown)
    [] p.t = "Unlink" -> IF m.src \in Keys(s.links)
                         THEN Good([s EXCEPT !.links[Ix(s.links, m.src)].v.reach = Without(@, p.l[1])])
                         ELSE Fail(s, NoLink, EUnknown)
    [] p.t = "Claim"  -> LET e == ReplyErrs(s, m.src, Me, m.nsn) IN
                         IF p.r = "bad" THEN Fail(s, Unknown, EUnknown)
                         ELSE IF NoRoute \in e THEN Fail(s, NoRoute, ENoRoute)
                         ELSE IF e # {} THEN Fail(s, Unknown, EUnknown)
                         ELSE Good(Reply(AddRew(s, p.r, s.net, p.a), m.src, Me, m.nsn, P("Response", << >>, 0, ""), 0))
    [] p.t = "Response" -> HandleResponse(s, -m.nsn, p.a)
    [] OTHER          -> Fail(s, BshBase, EBsh)
\* what the services of the harness do is told by the payload
ReplyP(a) == P("x", << >>, IF a = 1 THEN 5 ELSE 0, IF a = 1 THEN "rev" ELSE "ok")
Bsh(s0, m) ==
  LET p == m.p
      s == [s0 EXCEPT !.calls = Append(@, [svc |-> m.svc, fn |-> "msg", src |-> m.src, sn |-> m.sn, p |-> p, code |-> 0])]
  IN CASE m.svc \notin Keys(s.svcs) -> Fail(s0, NoBSH, ENoBsh)
       [] p.r = "rev"   -> Fail(s, BshBase + p.a, EBsh)
       [] p.r = "throw" -> Fail(s, BshBase, EBsh)
       [] p.r \in {"reply", "replyrev", "reply2"} /\ m.sn > 0 ->
            IF ReplyErrs(s, m.src, m.svc, m.sn) # {} THEN Fail(s, BshBase + 7, EBsh)
            ELSE IF p.r = "replyrev" THEN Fail(s, BshBase + p.a, EBsh)
            ELSE Good(Reply(s, m.src, m.svc, m.sn, ReplyP(p.a), 0))
       [] p.r = "send"  -> IF NewErrs(s, p.l[1], 0, 0) # {} THEN Fail(s, BshBase + 7, EBsh)
                           ELSE Good(SendNew(s, p.l[1], m.svc, 0, ReplyP(p.a), 0))
       [] OTHER -> Good(s)
BshErr(s0, m) ==
  LET s == [s0 EXCEPT !.calls = Append(@, [svc |-> m.svc, fn |-> "err", src |-> m.src, sn |-> -m.sn, p |-> P("", << >>, 0, ""), code |-> m.p.a])]
  IN IF m.svc \notin Keys(s.svcs) THEN Fail(s0, NoBSH, ENoBsh)
     ELSE IF s.errfail THEN Fail(s, BshBase + 3, EBsh) ELSE Good(s)

Handle(s, m) ==
  LET k == <<m.src, m.svc, m.sn>>
      keep == m.sn > 0 /\ m.fee # NoFee
      x == IF ~keep THEN s
           ELSE LET y == IF k \in DOMAIN s.resp THEN Collect(s, s.resp[k].fee) ELSE s
                IN [y EXCEPT !.resp = Put(@, k, [nsn |-> m.nsn, fee |-> m.fee])]
      r == IF m.sn >= 0 THEN (IF m.svc = Me THEN Internal(x, m) ELSE Bsh(x, m))
           ELSE IF m.p.t # "err" THEN Fail(s, BshBase, EBsh)
           ELSE IF m.svc = Me THEN HandleResponse(s, -m.nsn, m.p.a) ELSE BshErr(s, m)
  IN IF r.code = -1 THEN (IF m.sn > 0 THEN r ELSE [r EXCEPT !.s = Collect(@, m.fee)])
     ELSE IF keep THEN [r EXCEPT !.s.resp = Del(@, k)] ELSE r

\* one message of a relay message: exactly one outcome
Process(s0, prev, seq, m0, by) ==
  LET s == Accum(s0, by, m0)  m == Paid(m0)
      next == Resolve(s, m.dst)
      r == IF m.dst = s.net THEN Handle(s, m)
           ELSE IF next = "" THEN Fail(s, NoRoute, ENoRoute)
           ELSE IF ~CanSend(s, next) THEN Fail(s, Unknown, EUnknown)
           ELSE Good(Out(s, next, m))
  IN IF r.code = -1 THEN Btp(r.s, m, IF m.dst = s.net THEN "" ELSE next, IF m.dst = s.net THEN "RECEIVE" ELSE "ROUTE")
     ELSE IF m.sn > 0
          THEN IF CanSend(r.s, prev) THEN SendError(r.s, prev, m, r.ec)
               \* the error cannot leave: its fees are in the order of the way back
               ELSE LET e == [m EXCEPT !.fee.v = Swap(r.s, m)]
                    IN Drop(Collect(r.s, e.fee), prev, seq, e, Unknown)
          ELSE Drop(Collect(r.s, m.fee), prev, seq, m, r.code)
RECURSIVE Dispatch(_, _, _, _, _)
Dispatch(s, prev, seq, ms, by) ==
  IF ms = << >> THEN s ELSE Dispatch(Process(s, prev, seq, Head(ms), by), prev, seq + 1, Tail(ms), by)

----------------------------------------------------------------------------
(* External calls.  Errs: what the call may be refused with; Do: its effect otherwise.     *)
Own(s, o) == IF IsOwner(s, o.by) THEN {} ELSE {Unauth}
LinkErrs(s, a) == IF NetOf(a) = "" THEN {BadAddr} ELSE IF IsLink(s, a) THEN {} ELSE {NoLink}
AnyFail(s) == \E i \in DOMAIN s.links : ~CanSend(s, s.links[i].v.addr)
\* the relay message: vcode -1 when the verifier accepts it at the sequence after rx
RelayErrs(s, o, vcode) ==
  IF NetOf(o.link) = "" THEN {BadAddr}
  ELSE IF ~IsLink(s, o.link) THEN {NoLink}
  ELSE (IF NetOf(o.link) \notin Keys(s.vers) THEN {NoBMV} ELSE IF vcode # -1 THEN {vcode} ELSE {}) \cup
       (IF In(At(s.relays, o.link, << >>), o.by) THEN {} ELSE {Unauth})
RelayDo(s, o, ms) ==
  LET n == NetOf(o.link) rx == Val(s.links, n).rx
  IN Dispatch([s EXCEPT !.links[Ix(s.links, n)].v.rx = rx + Len(ms)], o.link, rx + 1, ms, o.by)
\* what the verifier of the harness says to a message made of ms which starts at seq
Verdict(s, o) ==
  IF o.vcode # -1 THEN o.vcode
  ELSE IF (o.ms # << >> \/ o.junk) /\ ~o.any /\ o.seq # Val(s.links, NetOf(o.link)).rx + 1 THEN BMVFail
  ELSE IF o.junk THEN Unknown ELSE -1

Frag(s, o) == At(s.frag, <<o.link, o.by>>, [last |-> 0, next |-> 0, parts |-> << >>])
Whole(q, k) == q # << >> /\ Len(q) = k /\ \A i \in DOMAIN q : q[i] = [g |-> q[1].g, i |-> i, k |-> k]
FragParts(s, o) == Append(SubSeq(Frag(s, o).parts, 1, Frag(s, o).last), [g |-> o.g, i |-> o.i, k |-> o.k])
FragVerdict(s, o) == IF Whole(FragParts(s, o), o.k) THEN Verdict(s, o) ELSE BMVFail

FeeErrs(s, o) ==
  UNION {LET d == o.dsts[i] v == o.vals[i] IN
         IF v = << >> THEN {}
         ELSE (IF Len(v) % 2 # 0 THEN {Unknown} ELSE {}) \cup
              (IF \E j \in DOMAIN v : v[j] < 0 THEN {Unknown} ELSE {}) \cup
              (IF Len(v) = 2 THEN (IF d \in Keys(s.links) THEN {} ELSE {NoLink})
               ELSE (IF Resolve(s, d) # "" THEN {} ELSE {NoRoute})) : i \in DOMAIN o.dsts \cap DOMAIN o.vals} \cup
  (IF Len(o.dsts) # Len(o.vals) THEN {Unknown} ELSE {})
RECURSIVE SetFees(_, _, _)
SetFees(f, d, v) == IF d = << >> THEN f
  ELSE SetFees(IF Head(v) = << >> THEN Del(f, Head(d)) ELSE Put(f, Head(d), Head(v)), Tail(d), Tail(v))

AddLinkErrs(s, o) ==
  IF NetOf(o.link) = "" THEN {BadAddr}
  ELSE (IF NetOf(o.link) \notin Keys(s.vers) THEN {NoBMV} ELSE {}) \cup
       (IF NetOf(o.link) \in Keys(s.links) THEN {HasLink} ELSE {}) \cup
       (IF AnyFail(s) \/ (o.op = "addBTPLink" /\ s.csfail) THEN {Unknown} ELSE {})
NidErrs(s, o) == IF o.nid < 1 \/ o.nid \in DOMAIN s.off THEN {Unknown} ELSE {}
AddLink(s, o) ==
  LET old == LinkAddrs(s)
      x == Propagate(s, old, P("Link", <<o.link>>, 0, ""))
      y == [x EXCEPT !.links = PutK(@, NetOf(o.link), [addr |-> o.link, rx |-> 0, tx |-> 0, reach |-> << >>])]
  IN SendInternal(y, o.link, P("Init", old, 0, ""))
SetNid(s, o, at) == [s EXCEPT !.nid = Put(@, o.link, o.nid), !.off = Put(@, o.nid, at)]
Claimer(s, o) == IF s.fh # "" /\ s.fh = o.by THEN Me ELSE o.by
Reward(s, who, net) == At(s.rew, <<who, net>>, 0)
BadSn(sn, nsn) == nsn = 0 \/ (nsn > 0 /\ sn < 0) \/ (nsn < 0 /\ sn > 0)

Errs(s, o) ==
  CASE o.op = "addVerifier" -> Own(s, o) \cup (IF o.net = s.net THEN {Unknown} ELSE {}) \cup
                               (IF o.net \in Keys(s.vers) THEN {HasBMV} ELSE {})
    [] o.op = "removeVerifier" -> Own(s, o) \cup (IF o.net \in Keys(s.vers) THEN {} ELSE {NoBMV})
    [] o.op = "addService" -> Own(s, o) \cup (IF o.svc \in Keys(s.svcs) \cup {Me} THEN {HasBSH} ELSE {}) \cup
                              (IF o.svc = "x-y" THEN {Unknown} ELSE {})
    [] o.op = "removeService" -> Own(s, o) \cup (IF o.svc \in Keys(s.svcs) THEN {} ELSE {NoBSH})
    [] o.op = "addLink" -> Own(s, o) \cup AddLinkErrs(s, o)
    [] o.op = "addBTPLink" -> Own(s, o) \cup NidErrs(s, o) \cup AddLinkErrs(s, o)
    [] o.op = "setBTPLinkNetworkId" -> Own(s, o) \cup NidErrs(s, o) \cup LinkErrs(s, o.link)
    [] o.op = "removeLink" -> Own(s, o) \cup LinkErrs(s, o.link) \cup
                              (IF \E i \in DOMAIN s.routes : s.routes[i].v = NetOf(o.link) THEN {Unknown} ELSE {}) \cup
                              (IF \E i \in DOMAIN s.links : s.links[i].k # NetOf(o.link) /\ ~CanSend(s, s.links[i].v.addr)
                               THEN {Unknown} ELSE {})
    [] o.op = "addRoute" -> Own(s, o) \cup (IF o.net = o.via THEN {Unknown} ELSE {}) \cup
                            (IF o.net \in Keys(s.routes) THEN {Unknown} ELSE {}) \cup
                            (IF o.via \in Keys(s.links) THEN {} ELSE {NoLink})
    [] o.op = "removeRoute" -> Own(s, o) \cup (IF o.net \in Keys(s.routes) THEN {} ELSE {Unknown})
    [] o.op = "addRelay" -> Own(s, o) \cup LinkErrs(s, o.link) \cup
                            (IF In(At(s.relays, o.link, << >>), o.who) THEN {HasBMR} ELSE {})
    [] o.op = "removeRelay" -> Own(s, o) \cup LinkErrs(s, o.link) \cup
                               (IF In(At(s.relays, o.link, << >>), o.who) THEN {} ELSE {NoBMR})
    [] o.op = "addOwner" -> Own(s, o) \cup (IF IsOwner(s, o.who) THEN {Unknown} ELSE {})
    [] o.op = "removeOwner" -> Own(s, o) \cup (IF In(s.owners, o.who) THEN {} ELSE {Unknown})
    [] o.op = "setFeeHandler" -> Own(s, o)
    [] o.op = "setFeeTable" -> Own(s, o) \cup FeeErrs(s, o)
    [] o.op = "sendMessage" ->
         (IF o.svc \notin Keys(s.svcs) THEN {NoBSH} ELSE IF Val(s.svcs, o.svc) # o.by THEN {Unauth} ELSE {}) \cup
         (IF o.sn < 0 THEN ReplyErrs(s, o.net, o.svc, -o.sn) ELSE NewErrs(s, o.net, o.sn, o.val))
    [] o.op = "claimReward" ->
         (IF Reward(s, Claimer(s, o), o.net) <= 0 THEN {Unknown} ELSE {}) \cup
         (IF o.net = s.net THEN (IF o.who = "bad" THEN {Unknown} ELSE {}) \cup
                                (IF s.bal + o.val < Reward(s, Claimer(s, o), o.net) THEN {-2} ELSE {})
          ELSE NewErrs(s, o.net, -1, o.val))
    [] o.op = "dropMessage" ->
         Own(s, o) \cup (IF BadSn(o.sn, o.nsn) THEN {InvalidSn} ELSE {}) \cup
         (IF o.svc \in Keys(s.svcs) THEN {} ELSE {NoBSH}) \cup
         (IF Resolve(s, o.net) = "" THEN {NoRoute}
          ELSE (IF o.seq # Val(s.links, NetOf(Resolve(s, o.net))).rx + 1 THEN {Unknown} ELSE {}) \cup
               (IF o.sn > 0 /\ ~CanSend(s, Resolve(s, o.net)) THEN {Unknown} ELSE {}))
    [] o.op = "relay" -> RelayErrs(s, o, IF IsLink(s, o.link) THEN Verdict(s, o) ELSE -1)
    [] o.op = "frag" ->
         LinkErrs(s, o.link) \cup (IF In(At(s.relays, o.link, << >>), o.by) THEN {} ELSE {Unauth}) \cup
         (IF o.idx < 0 \/ LinkErrs(s, o.link) # {} THEN {}
          ELSE IF <<o.link, o.by>> \notin DOMAIN s.frag THEN {-2, Unknown}
          ELSE IF Frag(s, o).next # o.idx THEN {Unknown}
          ELSE IF o.idx = 0 THEN RelayErrs(s, o, FragVerdict(s, o)) ELSE {})
    [] o.op \in {"cs", "errmode", "fallback"} -> {}
    [] OTHER -> {-99}

Do(s, o) ==
  CASE o.op = "addVerifier" -> [s EXCEPT !.vers = PutK(@, o.net, o.who)]
    [] o.op = "removeVerifier" -> [s EXCEPT !.vers = DelK(@, o.net)]
    [] o.op = "addService" -> [s EXCEPT !.svcs = PutK(@, o.svc, o.who)]
    [] o.op = "removeService" -> [s EXCEPT !.svcs = DelK(@, o.svc)]
    [] o.op = "addLink" -> AddLink(s, o)
    [] o.op = "addBTPLink" -> AddLink(SetNid(s, o, 0), o)
    [] o.op = "setBTPLinkNetworkId" -> SetNid(s, o, Val(s.links, NetOf(o.link)).tx)
    [] o.op = "removeLink" ->
         LET x == [s EXCEPT !.links = DelK(@, NetOf(o.link)), !.relays = Del(@, o.link), !.nid = Del(@, o.link),
                            !.off = IF o.link \in DOMAIN s.nid THEN Del(@, s.nid[o.link]) ELSE @,
                            !.fees = Del(@, NetOf(o.link))]
         IN Propagate(x, LinkAddrs(x), P("Unlink", <<o.link>>, 0, ""))
    [] o.op = "addRoute" -> [s EXCEPT !.routes = PutK(@, o.net, o.via)]
    [] o.op = "removeRoute" -> [s EXCEPT !.routes = DelK(@, o.net), !.fees = Del(@, o.net)]
    [] o.op = "addRelay" -> [s EXCEPT !.relays = Put(@, o.link, Append(At(@, o.link, << >>), o.who))]
    [] o.op = "removeRelay" -> [s EXCEPT !.relays = Put(@, o.link, DelS(At(@, o.link, << >>), o.who))]
    [] o.op = "addOwner" -> [s EXCEPT !.owners = Append(@, o.who)]
    [] o.op = "removeOwner" -> [s EXCEPT !.owners = DelS(@, o.who)]
    [] o.op = "setFeeHandler" -> [s EXCEPT !.fh = o.who]
    [] o.op = "setFeeTable" -> [s EXCEPT !.fees = SetFees(@, o.dsts, o.vals)]
    [] o.op = "sendMessage" -> IF o.sn < 0 THEN Reply(s, o.net, o.svc, -o.sn, o.p, o.val)
                               ELSE SendNew(s, o.net, o.svc, o.sn, o.p, o.val)
    [] o.op = "claimReward" ->
         LET w == Claimer(s, o) r == Reward(s, w, o.net)
             x == [s EXCEPT !.rew = Del(@, <<w, o.net>>)]
             Say(y, n) == [y EXCEPT !.ret = 0, !.oth = Append(@, [e |-> "claim", who |-> w, net |-> o.net, rcv |-> o.who, amt |-> r, nsn |-> n])]
         IN IF o.net = s.net THEN Say([x EXCEPT !.bal = @ + o.val - (IF o.who = Me THEN 0 ELSE r)], 0)
            ELSE LET y == SendNew(x, o.net, Me, -1, P("Claim", << >>, r, o.who), o.val)
                 IN Say([y EXCEPT !.reqs = Put(@, y.nsn, [dst |-> o.net, amt |-> r, caller |-> w])], y.nsn)
    [] o.op = "dropMessage" ->
         LET prev == Resolve(s, o.net)
             m0 == Msg(o.net, "", o.svc, o.sn, P("x", << >>, 0, ""), o.nsn, o.fee)
             x == Accum([s EXCEPT !.links[Ix(s.links, NetOf(prev))].v.rx = o.seq], Me, m0)
         IN IF o.sn > 0 THEN SendError(x, prev, Paid(m0), EUnknown)
            ELSE Drop(Collect(x, Paid(m0).fee), prev, o.seq, Paid(m0), Dropped)
    [] o.op = "relay" -> RelayDo(s, o, o.ms)
    [] o.op = "frag" ->
         IF o.idx < 0
         THEN [s EXCEPT !.frag = Put(@, <<o.link, o.by>>, [last |-> -o.idx, next |-> -o.idx - 1,
                                     parts |-> << [g |-> o.g, i |-> o.i, k |-> o.k] >>])]
         ELSE IF o.idx > 0
         THEN [s EXCEPT !.frag = Put(@, <<o.link, o.by>>, [Frag(s, o) EXCEPT !.next = o.idx - 1,
                                     !.parts = Append(@, [g |-> o.g, i |-> o.i, k |-> o.k])])]
         ELSE RelayDo(s, o, o.ms)
    [] o.op = "cs" -> [s EXCEPT !.csfail = o.on]
    [] o.op = "errmode" -> [s EXCEPT !.errfail = o.on]
    [] o.op = "fallback" -> [s EXCEPT !.bal = @ + o.val]

\* getRoutes: the routes, and what is reachable over links
Routes(s) == {<<s.routes[i].k, s.routes[i].v>> : i \in DOMAIN s.routes} \cup
  {<<n, NetOf(s.links[CHOOSE i \in DOMAIN s.links :
       /\ \E j \in DOMAIN s.links[i].v.reach : NetOf(s.links[i].v.reach[j]) = n
       /\ \A h \in 1..(i - 1) : \A j \in DOMAIN s.links[h].v.reach : NetOf(s.links[h].v.reach[j]) # n].v.addr)>> :
     n \in {NetOf(s.links[i].v.reach[j]) : <<i, j>> \in
            {<<a, b>> \in (DOMAIN s.links) \X (1..8) : b \in DOMAIN s.links[a].v.reach}} \ Keys(s.routes)}
=============================================================================
