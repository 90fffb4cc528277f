------------------------------- MODULE BmvIcon -------------------------------
(* The verifier of ICON blocks (javascore/bmv/icon).  It follows the headers of *)
(* the source with the votes of its validators, keeps them in a Merkle tree     *)
(* accumulator, and hands over the messages of events proven in a header it     *)
(* follows, in the order of their sequence and without a gap.                   *)
(* c (a source): off, sets (of the keys of validators), v0 (first set),         *)
(*   blocks[b] = [nv, res, rs]: the set of the next block, whether the header   *)
(*   has a result, and the receipts [x, hashed, es] at index x with events      *)
(*   [x, a, sig, nx, s, m].  Of every block there is a second, different one    *)
(*   (v = 1) with the same structure and other messages (m + 100).              *)
(* state: acc (which of the two blocks was accepted at each height), set, lh    *)
EXTENDS Integers, Sequences, FiniteSets

Unknown == 25  BadMPT == 26  BadVotes == 27  BadSeq == 28  BadUpdate == 29  BadProof == 30  BadWitness == 31
SeqHigher == 32  UpHigher == 33  UpLower == 34  ProofHigher == 35  WitnessOld == 36
Refused == -100                                    \* refused, however

Start(c) == [acc |-> << >>, set |-> c.sets[c.v0], lh |-> c.off]
Quorum(n) == (2 * n) \div 3 + 1
Range(q) == {q[i] : i \in DOMAIN q}

\* ---- block updates ----
VotesOk(set, u) ==
  /\ u.alt = "none"
  /\ \A i \in DOMAIN u.votes : u.votes[i].kind = "ok" /\ u.votes[i].k \in Range(set)
  /\ \A i, j \in DOMAIN u.votes : u.votes[i].k = u.votes[j].k => i = j
  /\ Len(u.votes) >= Quorum(Len(set))
NextOk(c, set, u) == LET want == c.sets[c.blocks[u.b].nv] IN want = set \/ (u.nv # 0 /\ c.sets[u.nv] = want)
UpCodes(c, st, u) ==
  (IF u.b > Len(st.acc) + 1 THEN {UpHigher} ELSE IF u.b < Len(st.acc) + 1 THEN {UpLower} ELSE {})
  \cup (IF VotesOk(st.set, u) THEN {} ELSE {BadVotes, BadUpdate, Refused})
  \cup (IF NextOk(c, st.set, u) THEN {} ELSE {BadUpdate})
RECURSIVE Ups(_, _, _)
Ups(c, st, us) ==
  IF us = << >> THEN [ok |-> TRUE, st |-> st, codes |-> {}]
  ELSE LET u == Head(us)
           e == UpCodes(c, st, u)
       IN IF e # {} THEN [ok |-> FALSE, st |-> st, codes |-> e]
          ELSE Ups(c, [st EXCEPT !.acc = Append(@, u.v), !.set = c.sets[c.blocks[u.b].nv]], Tail(us))

\* ---- block proofs: the tree of n leaves that has leaf b ----
RECURSIVE Root(_, _, _)
Root(b, n, from) ==                            \* [level, first leaf]
  LET RECURSIVE Lvl(_)
      Lvl(x) == IF x <= 1 THEN 0 ELSE 1 + Lvl(x \div 2)
      l == Lvl(n)
  IN IF b <= 2^l THEN <<l, from>> ELSE Root(b - 2^l, n - 2^l, from + 2^l)
\* p: b, v, at (height of the witness), of (number of blocks it was made with), alt
ProofCodes(st, p) ==
  LET n == Len(st.acc) IN
  (IF p.alt = "nil" THEN {BadProof} ELSE {})
  \cup (IF p.b > n THEN {ProofHigher} ELSE {})
  \cup (IF p.at > n THEN {BadWitness} ELSE IF p.at < n THEN {WitnessOld} ELSE {})
  \cup (IF p.at = n /\ p.b <= n /\ p.alt # "nil"
           /\ (p.alt # "none" \/ st.acc[p.b] # p.v \/ p.of < p.b \/ Root(p.b, p.of, 0) # Root(p.b, n, 0))
        THEN {BadWitness} ELSE {})

\* ---- messages ----
Ours(o, e) == e.a = (IF o.prev = "src" THEN "bmc" ELSE "other") /\ e.sig = "msg" /\ e.nx = (IF o.cur = "bmc" THEN "us" ELSE "them")
RECURSIVE Events(_, _, _, _, _)
Events(o, v, es, n, acc) ==
  IF es = << >> THEN [ok |-> TRUE, n |-> n, ms |-> acc, codes |-> {}]
  ELSE LET e == Head(es)
       IN IF ~Ours(o, e) THEN Events(o, v, Tail(es), n, acc)
          ELSE IF e.s # n THEN [ok |-> FALSE, n |-> n, ms |-> << >>, codes |-> {IF e.s > n THEN SeqHigher ELSE BadSeq}]
          ELSE Events(o, v, Tail(es), n + 1, Append(acc, e.m + 100 * v))
\* p: a proof of receipt r of block b (of kind v), inl (its own events) or evs (proofs of events [i, alt])
Harmless == {"none", "more"}
ProvenOk(c, b, v, p) ==
  /\ p.b = b /\ p.v = v /\ p.alt \in Harmless
  /\ ~p.inl => (\A i \in DOMAIN p.evs : p.evs[i].alt \in Harmless) /\ (c.blocks[b].rs[p.r].hashed \/ p.evs = << >>)
EventsOf(c, p) ==
  LET r == c.blocks[p.b].rs[p.r]
  IN IF p.inl THEN (IF r.hashed THEN << >> ELSE r.es) ELSE [i \in DOMAIN p.evs |-> r.es[p.evs[i].i]]
RECURSIVE Receipts(_, _, _, _, _, _, _)
Receipts(c, o, b, v, ps, n, acc) ==
  IF ps = << >> THEN [ok |-> TRUE, ms |-> acc, codes |-> {}]
  ELSE IF ~ProvenOk(c, b, v, Head(ps)) THEN [ok |-> FALSE, ms |-> << >>, codes |-> {Refused}]
  ELSE LET e == Events(o, v, EventsOf(c, Head(ps)), n, acc)
       IN IF ~e.ok THEN [ok |-> FALSE, ms |-> << >>, codes |-> e.codes]
          ELSE Receipts(c, o, b, v, Tail(ps), e.n, e.ms)

No(st, codes) == [ok |-> FALSE, st |-> st, ms |-> << >>, codes |-> codes]
\* o: by, cur, prev, seq, dam, ups, bp (none or one), rps
Relay(c, st, o) ==
  IF o.by # "bmc" \/ o.cur \notin {"bmc", "net"} \/ o.prev \notin {"src", "acct"}
  THEN No(st, IF o.cur = "junk" \/ o.prev = "junk" THEN {Refused} ELSE {Unknown})
  ELSE IF o.dam # "none" THEN No(st, {Refused})
  ELSE IF o.ups = << >> /\ o.bp = << >> THEN No(st, {Unknown})
  ELSE
  LET u == Ups(c, st, o.ups)
      pc == IF o.ups = << >> THEN ProofCodes(st, o.bp[1]) ELSE {}
      last == IF o.ups # << >> THEN o.ups[Len(o.ups)] ELSE o.bp[1]
  IN IF ~u.ok THEN No(st, u.codes)
     ELSE IF pc # {} THEN No(st, pc)
     ELSE IF o.rps # << >> /\ ~c.blocks[last.b].res THEN No(st, {Unknown})
     ELSE LET r == Receipts(c, o, last.b, last.v, o.rps, o.seq + 1, << >>)
          IN IF ~r.ok THEN No(st, r.codes)
             ELSE [ok |-> TRUE, st |-> IF r.ms = << >> THEN u.st ELSE [u.st EXCEPT !.lh = c.off + last.b], ms |-> r.ms, codes |-> {}]
=============================================================================
