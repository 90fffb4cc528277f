-------------------------------- MODULE Fees --------------------------------
(* The fee aggregation (javascore/fee-aggregation).  Fees of the services come   *)
(* to the contract as tokens.  A deposit of ICX for a token starts a syndication *)
(* for what the contract has of it and has not promised; more deposits join     *)
(* until it ends.  Then the depositors get the tokens they paid for at the price *)
(* of the oracle less 10%, or all of the tokens by their shares if more was paid *)
(* than they are worth, and then the rest of the ICX back; the fund (CPS) gets   *)
(* the ICX that was not given back.                                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
CONSTANTS Accts, Toks

Unit(t) == IF t = "P" THEN 10 ELSE 100             \* of the token contract, or as registered
Id(t) == CASE t = "P" -> 0 [] t = "Q" -> 7 [] OTHER -> 8
At(t) == IF t = "P" THEN "t2" ELSE "t31"
SumOf(f, S) == FoldSet(LAMBDA a, n : f[a] + n, 0, S)

None == [on |-> FALSE, id |-> 0, amt |-> 0, start |-> 0, end |-> 0, dep |-> [a \in Accts |-> 0]]
Start0 == [now |-> 1, dur |-> 43200, toks |-> << >>, n |-> 0,
           syn |-> [t \in Toks |-> None], lock |-> [t \in Toks |-> 0], bal |-> [t \in Toks |-> [a \in Accts |-> 0]],
           ref |-> [a \in Accts |-> 0], icx |-> [a \in Accts \cup {"fas", "cps"} |-> IF a \in Accts THEN 100000 ELSE 0],
           have |-> [t \in Toks |-> [a \in Accts \cup {"fas"} |-> 0]], price |-> [t \in Toks |-> 100],
           down |-> [cps |-> FALSE, band |-> FALSE, tok |-> FALSE]]
Known(s, t) == \E i \in DOMAIN s.toks : s.toks[i] = t
Total(y) == SumOf(y.dep, Accts)
Over(s, t) == s.syn[t].on /\ s.now >= s.syn[t].end

\* who gets how many tokens and how much ICX back
Price(s, t) == (s.price[t] * 90) \div 100
Worth(s, t, y) == (y.amt * Price(s, t)) \div Unit(t)
Share(s, t, y, a) == IF y.dep[a] = 0 THEN 0
                     ELSE IF Worth(s, t, y) > Total(y) THEN (y.dep[a] * Unit(t)) \div Price(s, t)
                     ELSE (y.dep[a] * y.amt) \div Total(y)
Back(s, t, y, a) == IF y.dep[a] = 0 \/ Worth(s, t, y) > Total(y) THEN 0
                    ELSE LET r == y.dep[a] - (Share(s, t, y, a) * Price(s, t)) \div Unit(t) IN IF r > 0 THEN r ELSE 0

R(ok, code, s, ev, hook) == [ok |-> ok, code |-> code, s |-> s, ev |-> ev, hook |-> hook]
No(s, code) == R(FALSE, code, s, << >>, "none")     \* code 0: whatever
Yes(s, ev) == R(TRUE, -1, s, ev, "none")

\* the end of the syndication y of t, which is no longer the current one of s
Ended(s, t, y) ==
  LET sh == [a \in Accts |-> Share(s, t, y, a)]  ba == [a \in Accts |-> Back(s, t, y, a)]
      fund == Total(y) - SumOf(ba, Accts)
  IN IF s.have[t]["fas"] < y.amt THEN No(s, 61)
     ELSE IF s.down.band \/ (s.down.cps /\ fund > 0) \/ s.icx["fas"] < fund THEN No(s, 0)
     ELSE Yes([s EXCEPT !.icx["fas"] = @ - fund, !.icx["cps"] = @ + fund,
                        !.bal[t] = [a \in Accts |-> @[a] + sh[a]], !.lock[t] = @ + SumOf(sh, Accts),
                        !.ref = [a \in Accts |-> @[a] + ba[a]]],
              <<<<"end", y.id, t, y.amt, s.now>>>>)

Begin(s, t, a, v, amt) ==
  [s EXCEPT !.n = @ + 1, !.syn[t] = [on |-> TRUE, id |-> s.n + 1, amt |-> amt, start |-> s.now, end |-> s.now + s.dur,
                                     dep |-> [b \in Accts |-> IF b = a THEN v ELSE 0]]]
Begun(s, t, a, v) == <<"start", s.syn[t].id, t, s.syn[t].amt, a, v, s.syn[t].end>>
Deposit(s0, a, t, v) ==
  LET s == [s0 EXCEPT !.icx[a] = @ - v, !.icx["fas"] = @ + v]  y == s.syn[t]  h == s.have[t]["fas"]
  IN IF ~Known(s, t) THEN No(s0, 57)
     ELSE IF h = 0 THEN No(s0, 61)
     ELSE IF y.on /\ s.now < y.end
          THEN Yes([s EXCEPT !.syn[t].dep[a] = @ + v], <<<<"deposit", y.id, t, a, v>>>>)
     ELSE LET free == h - s.lock[t] - (IF y.on THEN y.amt ELSE 0)
          IN IF free <= 0 THEN No(s0, 61)
             ELSE LET b == Begin(s, t, a, v, free)
                  IN IF ~y.on THEN Yes(b, <<Begun(b, t, a, v)>>)
                     ELSE LET e == Ended(b, t, y) IN IF ~e.ok THEN No(s0, e.code) ELSE Yes(e.s, Append(e.ev, Begun(b, t, a, v)))

\* what the contract k1 does when it is paid: nothing, refuse, or one call back
RECURSIVE Do(_, _)
Nested(s, o) == IF o.arm.op \in {"none", "rev"} \/ o.by # "k1" THEN Yes(s, << >>)
                ELSE LET r == Do(s, [op |-> o.arm.op, tok |-> o.arm.tok, v |-> o.arm.v, by |-> "k1", arm |-> [op |-> "none"]])
                     IN R(TRUE, -1, r.s, r.ev, IF r.ok THEN "ok" ELSE "fail")
Refuses(o) == o.by = "k1" /\ o.arm.op = "rev"

Withdraw(s, o) ==
  LET a == o.by  v == s.ref[a]
  IN IF v = 0 THEN No(s, 62)
     ELSE IF Refuses(o) \/ s.icx["fas"] < v THEN Yes(s, << >>)   \* it stays refundable
     ELSE Nested([s EXCEPT !.ref[a] = 0, !.icx["fas"] = @ - v, !.icx[a] = @ + v], o)
Claim(s, o) ==
  LET a == o.by  t == o.tok
  IN IF ~Known(s, t) THEN No(s, 57)
     ELSE LET v == s.bal[t][a] IN IF v = 0 THEN No(s, 62)
     ELSE LET p == IF Refuses(o) \/ s.down.tok \/ s.have[t]["fas"] < v THEN Yes(s, << >>)   \* it stays promised
                   ELSE Nested([s EXCEPT !.lock[t] = @ - v, !.bal[t][a] = 0, !.have[t]["fas"] = @ - v, !.have[t][a] = @ + v], o)
          IN IF ~Over(p.s, t) THEN p
             ELSE LET e == Ended([p.s EXCEPT !.syn[t] = None], t, p.s.syn[t])
                  IN IF e.ok THEN R(TRUE, -1, e.s, p.ev \o e.ev, p.hook) ELSE No(s, e.code)

Register(s, o) ==
  IF o.by # "own" THEN No(s, 56)
  ELSE IF Known(s, o.tok) THEN No(s, 57)
  ELSE IF o.at \in {"u1", "u2"} THEN No(s, 58)
  ELSE IF o.op = "irc31" /\ o.id <= 0 THEN No(s, 59)
  ELSE Yes([s EXCEPT !.toks = Append(@, o.tok)], << >>)
Do(s, o) ==
  CASE o.op \in {"irc2", "irc31"} -> Register(s, o)
    [] o.op = "duration" -> IF o.by # "own" THEN No(s, 56) ELSE IF o.v = 0 THEN No(s, 59) ELSE Yes([s EXCEPT !.dur = o.v], << >>)
    [] o.op = "deposit" -> Deposit(s, o.by, o.tok, o.v)
    [] o.op = "claim" -> Claim(s, o)
    [] o.op = "withdrawal" -> Withdraw(s, o)
    [] o.op = "pay" -> IF o.v = 0 \/ s.down.cps THEN No(s, 0) ELSE Yes([s EXCEPT !.icx[o.by] = @ - o.v, !.icx["cps"] = @ + o.v], << >>)
    [] o.op = "fees" -> IF s.down.tok THEN No(s, 0) ELSE Yes([s EXCEPT !.have[o.tok]["fas"] = @ + o.v], << >>)
    [] o.op = "price" -> Yes([s EXCEPT !.price[o.tok] = o.v], << >>)
    [] o.op = "down" -> Yes([s EXCEPT !.down[o.what] = o.on], << >>)
    [] o.op = "wait" -> Yes([s EXCEPT !.now = @ + o.v], << >>)
    [] OTHER -> No(s, 0)

Obs(s) == [icx |-> s.icx, have |-> s.have, bal |-> s.bal, ref |-> s.ref, dur |-> s.dur,
           toks |-> [i \in DOMAIN s.toks |-> <<s.toks[i], At(s.toks[i]), Id(s.toks[i])>>],
           dep |-> [t \in Toks |-> [a \in Accts |-> IF Known(s, t) /\ s.syn[t].on THEN s.syn[t].dep[a] ELSE -1]],
           av |-> [t \in Toks |-> IF ~Known(s, t) THEN -1
                                  ELSE IF s.syn[t].on /\ ~Over(s, t) THEN s.syn[t].amt
                                  ELSE s.have[t]["fas"] - s.lock[t] - s.syn[t].amt],
           syn |-> [t \in Toks |-> IF ~Known(s, t) THEN <<"failed">> ELSE IF ~s.syn[t].on \/ Over(s, t) THEN <<"none">>
                                   ELSE <<"is", s.syn[t].id, s.syn[t].amt, Total(s.syn[t]), s.syn[t].start, s.syn[t].end>>]]

\* --- what depositors rely on
Promised(s) == \A t \in Toks : s.lock[t] = SumOf(s.bal[t], Accts)
Backed(s) == \A t \in Toks : s.have[t]["fas"] >= s.lock[t] + s.syn[t].amt
Solvent(s) == s.icx["fas"] = SumOf(s.ref, Accts) + FoldSet(LAMBDA t, n : Total(s.syn[t]) + n, 0, Toks)
NoLess(s) == SumOf(s.icx, DOMAIN s.icx) = 100000 * Cardinality(Accts)
=============================================================================
