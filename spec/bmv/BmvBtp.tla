------------------------------- MODULE BmvBtp -------------------------------
(* The verifier of BTP blocks (javascore/bmv/btpblock).                        *)
(* A source chain c has blocks of one BTP network, each with a number of       *)
(* messages m, a path to the root of the network sections, and perhaps a new   *)
(* set of validators.  A relay message is a sequence of block updates and      *)
(* message proofs, made from the chain by an honest relay, or altered.  The    *)
(* verifier takes exactly the next block, signed by more than two thirds of    *)
(* the validators in force, and then its messages in order; it hands over      *)
(* nothing else.                                                               *)
EXTENDS Integers, Sequences, FiniteSets

Range(q) == {q[i] : i \in DOMAIN q}
RECURSIVE SumM(_, _)
SumM(c, b) == IF b = 0 THEN 0 ELSE SumM(c, b - 1) + c.blocks[b].m
First(c, b) == SumM(c, b - 1)                  \* number of the first message of block b
Height(b) == 10 * b

Unknown == 25  NotVerifiable == 26  AlreadyVerified == 27

\* state: block accepted last, messages of it handed over, validators in force
Start(c) == [b |-> 1, done |-> 0, vs |-> c.blocks[1].set]
Left(c, s) == c.blocks[s.b].m - s.done

\* outcome of an item: r "ok", "no" or "either", with the codes of a refusal
Out(r, s, ms, codes) == [r |-> r, s |-> s, ms |-> ms, codes |-> codes]
AnyCode == {-100}

Good(c, s, it) == {it.sigs[i].k : i \in {j \in DOMAIN it.sigs : it.sigs[j].kind = "ok"}} \cap Range(c.sets[s.vs])
Quorum(c, s, it) == 3 * Cardinality(Good(c, s, it)) > 2 * Len(c.sets[s.vs])
\* every signature is one of a validator, once
Proper(c, s, it) == \A i \in DOMAIN it.sigs :
  \/ it.sigs[i].kind = "null"
  \/ /\ it.sigs[i].kind = "ok" /\ it.sigs[i].k \in Range(c.sets[s.vs])
     /\ \A j \in DOMAIN it.sigs : j # i /\ it.sigs[j].kind = "ok" => it.sigs[j].k # it.sigs[i].k
Update(c, s, it) ==
  LET exp == First(c, s.b) + c.blocks[s.b].m
      f == First(c, it.b)
      n == [b |-> it.b, done |-> 0, vs |-> IF c.blocks[it.b].set = 0 THEN s.vs ELSE c.blocks[it.b].set]
      harmless == it.alt \in {"pc", "pcnull"} /\ c.blocks[it.b].set = 0
  IN IF it.alt # "none" /\ ~harmless THEN Out("no", s, << >>, AnyCode)
     ELSE IF f < exp THEN Out("no", s, << >>, {AlreadyVerified})
     ELSE IF f > exp THEN Out("no", s, << >>, {NotVerifiable})
     ELSE IF Left(c, s) # 0 \/ it.b # s.b + 1 THEN Out("no", s, << >>, {Unknown})
     ELSE IF ~Quorum(c, s, it) THEN Out("no", s, << >>, AnyCode)
     ELSE IF ~Proper(c, s, it) \/ harmless THEN Out("either", n, << >>, AnyCode)
     ELSE Out("ok", n, << >>, {})
Msgs(b, from, to) == [i \in 1..(to - from) |-> <<b, from + i>>]
\* got: how many messages the code took with a forged proof, which is the last item
Forged(it) == it.alt \in {"forge", "wrap", "coll"}
Proof(c, s, it, late, got) ==
  IF it.alt = "none" /\ it.b = s.b /\ it.from = it.to THEN Out("either", s, << >>, AnyCode)
  ELSE IF Forged(it)
  THEN LET k == IF got > Left(c, s) THEN Left(c, s) ELSE got
       IN Out("either", [s EXCEPT !.done = @ + k], Msgs(s.b, s.done, s.done + k), AnyCode)
  ELSE IF it.alt # "none" \/ it.b # s.b \/ it.from # s.done \/ it.to <= it.from \/ it.to > c.blocks[s.b].m
  THEN Out("no", s, << >>, AnyCode)
  ELSE Out(IF late THEN "either" ELSE "ok", [s EXCEPT !.done = it.to], Msgs(it.b, it.from, it.to), AnyCode)
RECURSIVE Run(_, _, _, _, _, _)
Run(c, s, its, acc, upd, got) ==
  IF its = << >> THEN acc
  ELSE LET it == Head(its)
           x == IF it.t = "bu" THEN Update(c, s, it)
                \* a second proof for a block which came with the same relay message may be refused
                ELSE Proof(c, s, it, upd /\ s.done > 0, got - Len(acc.ms))
       IN IF x.r = "no" THEN [x EXCEPT !.codes = IF acc.r = "either" THEN AnyCode ELSE x.codes, !.ms = << >>]
          ELSE Run(c, x.s, Tail(its),
                   [x EXCEPT !.ms = acc.ms \o x.ms, !.r = IF acc.r = "either" THEN "either" ELSE x.r,
                             !.codes = IF acc.r = "either" \/ x.r = "either" THEN AnyCode ELSE {}],
                   upd \/ it.t = "bu", got)
\* the call: who calls (by), for which BMC (cur), from which network (prev), at which sequence
Relay(c, s, o, got) ==
  IF o.by # "bmc" \/ o.cur # "bmc" \/ o.prev # "src" \/ o.dseq # 0
  THEN Out("no", s, << >>, IF o.cur = "junk" \/ o.prev = "junk" THEN AnyCode ELSE {Unknown})
  ELSE LET x == Run(c, s, o.items, Out("ok", s, << >>, {}), FALSE, got)
       \* one byte changed or the end cut off: refused, or of no consequence
       IN IF o.dam = "none" THEN x
          ELSE IF x.r = "no" THEN [x EXCEPT !.codes = AnyCode] ELSE [x EXCEPT !.r = "either", !.codes = AnyCode]
Deployable(c) == c.bad = "none"
=============================================================================
