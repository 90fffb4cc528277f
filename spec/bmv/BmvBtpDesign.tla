---------------------------- MODULE BmvBtpDesign ----------------------------
(* What the verifier's rules are for, on small chains: whatever is relayed, in *)
(* whatever order, the messages handed over are those of the source chain,     *)
(* each once and in order, and each block is vouched for by validators in      *)
(* force at that point.                                                        *)
EXTENDS BmvBtp, TLC

CONSTANT Blocks
VARIABLES s, out, asked
Chain == [off |-> 3, bad |-> "none", sets |-> <<<<1, 2, 3, 4>>, <<3, 4, 5>>, <<5>>>>, blocks |-> Blocks]
B(m, set) == [m |-> m, set |-> set, path |-> << >>]
Chain1 == <<B(2, 1), B(0, 2), B(3, 0), B(1, 3), B(1, 0)>>
Chain2 == <<B(0, 1), B(3, 0), B(0, 3), B(2, 1), B(0, 2), B(1, 0)>>
Keys == 1..5
KSeq(K) == [i \in 1..Cardinality(K) |-> LET q == CHOOSE q \in [1..Cardinality(K) -> K] : \A a, b \in DOMAIN q : a < b => q[a] < q[b] IN q[i]]
SigSet(K) == [i \in 1..Cardinality(K) |-> [k |-> KSeq(K)[i], kind |-> "ok"]]
Alts == {"none", "nid"}
Bus == {[t |-> "bu", b |-> b, alt |-> a, re |-> FALSE, sigs |-> SigSet(K)] : b \in DOMAIN Blocks, a \in Alts, K \in SUBSET Keys}
Mps == {[t |-> "mp", b |-> b, from |-> f, to |-> t, alt |-> a] : b \in DOMAIN Blocks, f \in 0..3, t \in 0..3, a \in {"none", "node", "forge"}}
Honest == {it \in Bus : it.sigs # << >>} \cup Mps
Call(q, d) == [by |-> "bmc", cur |-> "bmc", prev |-> "src", dseq |-> d, dam |-> "none", items |-> q]
\* all messages of the chain, in order
RECURSIVE All(_)
All(b) == IF b = 0 THEN << >> ELSE All(b - 1) \o Msgs(b, 0, Blocks[b].m)

Init == s = Start(Chain) /\ out = << >> /\ asked = <<1, {}, 1>>
Do(q) == \E g \in 0..3 :
  LET x == Relay(Chain, s, Call(q, 0), g)
  IN /\ x.r # "no"
     /\ s' = x.s /\ out' = out \o x.ms
     /\ asked' = IF Head(q).t = "bu" THEN <<Head(q).b, Good(Chain, s, Head(q)), s.vs>> ELSE asked
Next == (\E it \in Bus \cup Mps : Do(<<it>>)) \/ (\E it \in Mps : it.alt = "none" /\ s.b < Len(Blocks)
           /\ Do(<<[t |-> "bu", b |-> s.b + 1, alt |-> "none", re |-> FALSE, sigs |-> SigSet(Range(Chain.sets[s.vs]))], it>>))
Spec == Init /\ [][Next]_<<s, out, asked>>

Whole == All(Len(Blocks))
Prefix == Len(out) <= Len(Whole) /\ out = SubSeq(Whole, 1, Len(out))
Position == Len(out) = First(Chain, s.b) + s.done
RECURSIVE InForce(_)
InForce(b) == IF Blocks[b].set # 0 THEN Blocks[b].set ELSE InForce(b - 1)
Validators == s.vs = InForce(s.b)
Vouched == asked[1] > 1 => 3 * Cardinality(asked[2]) > 2 * Len(Chain.sets[InForce(asked[1] - 1)])
OneByOne == [][s'.b \in {s.b, s.b + 1} /\ (s'.b # s.b => s.done = Blocks[s.b].m)]_<<s, out, asked>>
=============================================================================
