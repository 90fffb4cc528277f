----------------------------- MODULE BmvIconGen -----------------------------
EXTENDS BmvIcon, TLC, Json, IOUtils
VARIABLES c, st, seq, hist, k
R(S) == IF k > 0 THEN RandomElement(S) ELSE CHOOSE x \in S : TRUE
RS(q) == q[R(DOMAIN q)]
One(n) == R(1..n) = 1

\* ---- a source ----
Event(s, x) == LET d == R(1..5) IN
  [x |-> x, a |-> IF d = 1 THEN "other" ELSE "bmc", sig |-> IF d = 2 THEN "oth" ELSE "msg", nx |-> IF d = 3 THEN "them" ELSE "us",
   s |-> s, m |-> R(1..9) + 10 * (s % 9)]
Real(e) == e.a = "bmc" /\ e.sig = "msg" /\ e.nx = "us"
RECURSIVE Evts(_, _, _)
Evts(n, s, x) == IF n = 0 THEN << >> ELSE LET e == Event(s, x) IN <<e>> \o Evts(n - 1, IF Real(e) THEN s + 1 ELSE s, x + R(1..2))
CountReal(es) == Cardinality({i \in DOMAIN es : Real(es[i])})
RECURSIVE Recs(_, _, _)
Recs(n, s, x) == IF n = 0 THEN << >>
  ELSE LET es == Evts(RS(<<0, 1, 1, 2, 3, 5>>), s, RS(<<0, 0, 1, 3, 15, 127>>))
       IN <<[x |-> x, hashed |-> One(2), es |-> es]>> \o Recs(n - 1, s + CountReal(es), x + RS(<<1, 1, 2, 7>>))
RECURSIVE SumReal(_)
SumReal(rs) == IF rs = << >> THEN 0 ELSE CountReal(Head(rs).es) + SumReal(Tail(rs))
RECURSIVE Blocks(_, _, _)
Blocks(n, s, set) == IF n = 0 THEN << >>
  ELSE LET rs == Recs(RS(<<0, 0, 1, 1, 2, 3>>), s, RS(<<0, 0, 1, 8, 120, 126>>))
           nv == IF One(4) THEN R(1..4) ELSE set
       IN <<[nv |-> nv, res |-> rs # << >> \/ One(2), n |-> RS(<<1, 1, 2, 16, 17>>), rs |-> rs]>> \o Blocks(n - 1, s + SumReal(rs), nv)
Source == LET v0 == R(1..4) IN
  [off |-> RS(<<0, 1, 100, 16777215>>), v0 |-> v0, blocks |-> Blocks(12, 1, v0),
   sets |-> RS(<<<< <<1>>, <<1, 2, 3>>, <<3, 4, 5, 6>>, <<3, 2, 1>> >>, << <<7, 8>>, <<1, 2, 3, 4, 5, 6, 7>>, <<2, 3, 4, 5, 6>>, <<6, 5, 4, 3, 2, 1>> >>>>)]
N == Len(c.blocks)

\* ---- relay messages ----
Shuffle(q) == IF Len(q) < 2 \/ ~One(4) THEN q ELSE LET i == R(1..(Len(q) - 1)) IN SubSeq(q, i + 1, Len(q)) \o SubSeq(q, 1, i)
Votes(set) == LET n == IF One(8) THEN Quorum(Len(set)) - 1 ELSE R(Quorum(Len(set))..Len(set))
                  q == [i \in 1..n |-> [k |-> Shuffle(set)[i], kind |-> "ok"]]
              IN IF One(12) /\ n > 0 THEN [q EXCEPT ![R(1..n)] = [k |-> RS(set), kind |-> RS(<<"ok", "ok", "hash", "type", "round", "short">>)]]
                 ELSE IF One(20) THEN Append(q, [k |-> RS(<<1, 5, 9>>), kind |-> "ok"]) ELSE q
Update(b, set) == LET blk == c.blocks[b] IN
  [b |-> b, v |-> IF One(8) THEN 1 ELSE 0, alt |-> IF One(30) THEN RS(<<"time", "next", "novotes", "round", "part", "height", "result", "nohead">>) ELSE "none",
   votes |-> Votes(set), nv |-> IF One(15) THEN R(0..4) ELSE IF c.sets[blk.nv] = set THEN (IF One(3) THEN R(1..4) ELSE 0) ELSE blk.nv]
RECURSIVE Updates(_, _, _)
Updates(b, set, n) == IF n = 0 \/ b > N THEN << >>
  ELSE <<Update(b, set)>> \o Updates(IF One(25) THEN b + RS(<<0, 2>>) ELSE b + 1, c.sets[c.blocks[b].nv], n - 1)
Proof(b) == LET n == Len(st.acc) IN
  [b |-> b, v |-> IF One(12) \/ b > n THEN R(0..1) ELSE st.acc[b], at |-> IF One(15) THEN n + RS(<<1, -1>>) ELSE n,
   of |-> IF One(6) THEN R(0..n) ELSE n, alt |-> IF One(15) THEN RS(<<"node", "cut", "more", "nil">>) ELSE "none"]
EvProofs(rc) == LET want == SelectSeq([i \in DOMAIN rc.es |-> i], LAMBDA i : ~Real(rc.es[i]) \/ rc.es[i].s > seq)
                    q == IF One(12) THEN Shuffle([i \in DOMAIN rc.es |-> i]) ELSE want
                IN [i \in DOMAIN q |-> [i |-> q[i], alt |-> IF One(30) THEN RS(<<"node", "cut", "more", "idx">>) ELSE "none"]]
Receipt(b, v, r) == LET rc == c.blocks[b].rs[r] IN
  [b |-> b, v |-> v, r |-> r, alt |-> IF One(30) THEN RS(<<"node", "cut", "more", "idx">>) ELSE "none",
   inl |-> IF One(15) THEN One(2) ELSE ~rc.hashed, evs |-> EvProofs(rc)]
ReceiptsOf(b, v) == LET q == [r \in DOMAIN c.blocks[b].rs |-> r]
                        need == SelectSeq(q, LAMBDA r : \E i \in DOMAIN c.blocks[b].rs[r].es : c.blocks[b].rs[r].es[i].s > seq)
                        use == IF One(10) THEN q ELSE IF One(6) /\ Len(need) > 1 THEN SubSeq(need, 1, Len(need) - 1) ELSE IF One(20) THEN Shuffle(need) ELSE need
                        out == [i \in DOMAIN use |-> Receipt(b, v, use[i])]
                    IN IF One(40) /\ b > 1 THEN SelectSeq([i \in DOMAIN c.blocks[b - 1].rs |-> Receipt(b - 1, v, i)], LAMBDA x : TRUE) ELSE out
Due == {b \in 1..N : \E r \in DOMAIN c.blocks[b].rs : \E i \in DOMAIN c.blocks[b].rs[r].es : Real(c.blocks[b].rs[r].es[i]) /\ c.blocks[b].rs[r].es[i].s > seq}
First(S) == CHOOSE x \in S : \A y \in S : x <= y
Base == [by |-> IF One(30) THEN "other" ELSE "bmc", cur |-> IF One(25) THEN RS(<<"other", "junk", "net", "net">>) ELSE "bmc",
         prev |-> IF One(15) THEN RS(<<"net", "junk", "acct", "acct", "longer">>) ELSE "src",
         seq |-> IF One(15) THEN seq + RS(<<1, -1>>) ELSE seq, dam |-> IF One(30) THEN RS(<<"cut", "type">>) ELSE "none"]
With(ups, bp, rps) == [by |-> Base.by, cur |-> Base.cur, prev |-> Base.prev, seq |-> Base.seq, dam |-> Base.dam, ups |-> ups, bp |-> bp, rps |-> rps]
Op == LET n == Len(st.acc)
          target == IF Due # {} /\ ~One(4) THEN First(Due) ELSE R(1..N)
          ups == IF One(5) \/ target > n THEN Updates(IF One(20) THEN R(1..N) ELSE n + 1, st.set, IF target > n /\ ~One(3) THEN target - n ELSE R(1..3)) ELSE << >>
          last == IF ups # << >> THEN ups[Len(ups)] ELSE [b |-> target, v |-> 0]
          bp == IF (ups = << >> /\ ~One(20)) \/ One(12) THEN <<Proof(IF One(20) THEN R(1..N) ELSE target)>> ELSE << >>
          hd == IF ups # << >> THEN last ELSE IF bp # << >> THEN bp[1] ELSE last
      IN With(ups, bp, IF One(6) THEN << >> ELSE ReceiptsOf(hd.b, IF One(20) THEN R(0..1) ELSE hd.v))
Init == k \in 1..1 /\ c = [off |-> -1] /\ st = [acc |-> << >>] /\ seq = 0 /\ hist = << >>
Make == c.off = -1 /\ \E x \in {Source} : c' = x /\ st' = Start(x) /\ UNCHANGED <<seq, hist, k>>
Go == c.off # -1 /\ \E o \in {Op} : LET r == Relay(c, st, o)
  IN st' = r.st /\ seq' = seq + Len(r.ms) /\ hist' = Append(hist, o) /\ UNCHANGED <<c, k>>
Next == Make \/ Go
MaxOps == atoi(IOEnv.GENLEN)
Say == Len(hist) >= MaxOps => PrintT("SCN" \o ToJson([c |-> c, ops |-> hist]))
Stop == Len(hist) < MaxOps
Spec == Init /\ [][Next]_<<c, st, seq, hist, k>>
=============================================================================
