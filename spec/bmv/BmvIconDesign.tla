---------------------------- MODULE BmvIconDesign ----------------------------
(* Relays of every kind against the verifier while less than a third of each    *)
(* set of validators is dishonest and signs anything: what is handed over is a  *)
(* part of the messages of the source, in order and from the first, and a relay *)
(* that has everything can always hand over the next one.                       *)
EXTENDS BmvIcon, TLC
CONSTANT Bad
VARIABLES st, out
E(s) == [x |-> s, a |-> "bmc", sig |-> "msg", nx |-> "us", s |-> s, m |-> s]
D(s) == [x |-> s, a |-> "other", sig |-> "msg", nx |-> "us", s |-> s, m |-> 90]
C == [off |-> 5, v0 |-> 1, sets |-> << <<1, 2, 3, 4>>, <<3, 5>>, <<1>> >>,
      blocks |-> << [nv |-> 1, res |-> TRUE, rs |-> << [x |-> 0, hashed |-> FALSE, es |-> <<E(1), D(2), E(2)>>] >>],
                    [nv |-> 2, res |-> FALSE, rs |-> << >>],
                    [nv |-> 2, res |-> TRUE, rs |-> << [x |-> 0, hashed |-> TRUE, es |-> <<E(3)>>], [x |-> 1, hashed |-> TRUE, es |-> <<D(4), E(4)>>] >>],
                    [nv |-> 1, res |-> TRUE, rs |-> << >>] >>]
Total == 4
N == Len(C.blocks)
Keys == 1..5
\* the votes that exist: everyone's for the block of the source, the dishonest's for anything
AsSeq(S) == LET RECURSIVE F(_)
                F(T) == IF T = {} THEN << >> ELSE LET x == CHOOSE y \in T : \A z \in T : y <= z IN <<x>> \o F(T \ {x})
            IN F(S)
VoteSeqs(v) == {[i \in DOMAIN AsSeq(S) |-> [k |-> AsSeq(S)[i], kind |-> "ok"]] : S \in SUBSET (IF v = 0 THEN Keys ELSE Bad)}
               \cup {<<[k |-> x, kind |-> "ok"], [k |-> x, kind |-> "ok"], [k |-> x, kind |-> "ok"]>> : x \in Bad}
Updates == {[b |-> b, v |-> 0, alt |-> "none", votes |-> q, nv |-> n] : b \in 1..N, n \in 0..3, q \in VoteSeqs(0)}
           \cup {[b |-> b, v |-> 1, alt |-> "none", votes |-> q, nv |-> n] : b \in 1..N, n \in 0..3, q \in VoteSeqs(1)}
Proofs == {[b |-> b, v |-> v, at |-> at, of |-> of, alt |-> "none"] : b \in 1..N, v \in 0..1, at \in 0..N, of \in 0..N}
RpsOf(b, v) == {<< >>} \cup {<<[b |-> b, v |-> v, r |-> r, alt |-> "none", inl |-> i, evs |-> e]>> :
     r \in DOMAIN C.blocks[b].rs, i \in BOOLEAN,
     e \in {<< >>} \cup {[j \in 1..1 |-> [i |-> x, alt |-> "none"]] : x \in 1..3}}
Fits(o) == \A i \in DOMAIN o : \A j \in DOMAIN o[i].evs : o[i].evs[j].i \in DOMAIN C.blocks[o[i].b].rs[o[i].r].es
Op(ups, bp, rps) == [by |-> "bmc", cur |-> "bmc", prev |-> "src", seq |-> Len(out), dam |-> "none", ups |-> ups, bp |-> bp, rps |-> rps]
Do(o) == LET r == Relay(C, st, o) IN r.ok /\ st' = r.st /\ out' = out \o r.ms
Init == st = Start(C) /\ out = << >>
ByUpdate == \E u \in Updates : u.b <= Len(st.acc) + 1 /\ \E q \in RpsOf(u.b, u.v) : Fits(q) /\ Do(Op(<<u>>, << >>, q))
ByProof == \E p \in Proofs : \E q \in RpsOf(p.b, p.v) : Fits(q) /\ Do(Op(<< >>, <<p>>, q))
Next == ByUpdate \/ ByProof
Spec == Init /\ [][Next]_<<st, out>>
Real == \A i \in DOMAIN st.acc : st.acc[i] = 0
InOrder == out = [i \in 1..Len(out) |-> i]
Follows == Len(st.acc) > 0 => st.set = C.sets[C.blocks[Len(st.acc)].nv]
Honest(b) == [b |-> b, v |-> 0, alt |-> "none", votes |-> [i \in DOMAIN st.set |-> [k |-> st.set[i], kind |-> "ok"]], nv |-> C.blocks[b].nv]
Go == LET n == Len(st.acc) IN
  /\ n < N => Relay(C, st, Op(<<Honest(n + 1)>>, << >>, << >>)).ok
  /\ \A b \in 1..n : \E r \in {Relay(C, st, Op(<< >>, <<[b |-> b, v |-> 0, at |-> n, of |-> n, alt |-> "none"]>>, << >>))} : r.ok
  /\ (n = N /\ Len(out) < Total) => \E b \in {IF Len(out) < 2 THEN 1 ELSE 3} :
       \E q \in RpsOf(b, 0) : Fits(q) /\ Relay(C, st, Op(<< >>, <<[b |-> b, v |-> 0, at |-> n, of |-> n, alt |-> "none"]>>, q)).ms # << >>
=============================================================================
