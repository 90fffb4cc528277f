----------------------------- MODULE BmvBtpGen -----------------------------
(* Chains and relay messages, biased to the ones that the verifier can take. *)
EXTENDS BmvBtp, TLC, Json, IOUtils

VARIABLES c, s, hist, k
R(S) == IF k > 0 THEN RandomElement(S) ELSE CHOOSE x \in S : TRUE
RS(q) == q[R(DOMAIN q)]
RECURSIVE RSeq(_, _)
RSeq(S, n) == IF n = 0 THEN << >> ELSE <<R(S)>> \o RSeq(S, n - 1)
RECURSIVE Drop1(_, _, _)
Drop1(q, n, i) == IF n = 0 \/ q = << >> THEN << >>
                  ELSE LET j == R(DOMAIN q)
                       IN <<q[j]>> \o Drop1(SubSeq(q, 1, j - 1) \o SubSeq(q, j + 1, Len(q)), n - 1, i)
Some(q, n) == Drop1(q, n, 0)                  \* n elements of q in some order
KeySet == Some(<<1, 2, 3, 4, 5, 6, 7>>, RS(<<1, 2, 3, 3, 4, 4, 5, 6, 7>>))
Block(b) == [m |-> IF b > 1 /\ R(1..8) = 1 THEN 0 ELSE RS(<<0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 9, 13>>),
             set |-> IF b = 1 THEN 1 ELSE RS(<<0, 0, 0, 2, 3, 4>>), path |-> RSeq({0, 1}, RS(<<0, 0, 1, 1, 2, 3>>))]
\* a set is announced only when it differs from the one in force
RECURSIVE Fix(_, _, _)
Fix(bs, i, cur) == IF i > Len(bs) THEN bs
                   ELSE IF i > 1 /\ bs[i].set = cur THEN Fix([bs EXCEPT ![i].set = 0], i + 1, cur)
                   ELSE Fix(bs, i + 1, IF bs[i].set = 0 THEN cur ELSE bs[i].set)
MkChain == LET n == R(3..7) IN
  [off |-> RS(<<0, 0, 1, 3, 10>>), bad |-> IF R(1..12) = 1 THEN RS(<<"prev", "pchash">>) ELSE "none",
   sets |-> <<KeySet, KeySet, KeySet, KeySet>>,
   blocks |-> Fix([b \in 1..n |-> Block(b)], 1, 1)]
\* two sets of the same keys would be the same set: give each its own key
Distinct(cc) == [cc EXCEPT !.sets = [i \in DOMAIN @ |-> <<10 + i>> \o @[i]]]

\* signatures
Sig(key, kind) == [k |-> key, kind |-> kind]
Least(q) == (2 * Len(q)) \div 3 + 1
Sigs(vs) ==
  LET q == c.sets[vs]  z == R(1..14)
      full(n) == LET p == Some(q, n) IN [i \in DOMAIN p |-> Sig(p[i], "ok")]
      some == full(Least(q) - 1)
  IN CASE z <= 4 -> full(Least(q))
       [] z = 5 -> full(Len(q))
       [] z = 6 -> [i \in DOMAIN q |-> Sig(q[i], IF i <= Least(q) THEN "ok" ELSE "null")]
       [] z = 7 -> <<Sig(q[1], "null")>> \o full(Least(q))
       [] z = 8 -> some
       [] z = 9 -> some \o (IF some = << >> THEN << >> ELSE <<some[1]>>)             \* the same one twice
       [] z = 10 -> some \o <<Sig(R({50, 51}), "ok")>>                                 \* not a validator
       [] z = 11 -> some \o <<Sig(RS(q), "bad")>>                                      \* over something else
       [] z = 12 -> some \o <<Sig(RS(q), RS(<<"short", "null">>))>>
       [] z = 13 -> LET o == c.sets[R(DOMAIN c.sets)] IN [i \in DOMAIN o |-> Sig(o[i], "ok")]
       [] OTHER -> full(R(0..Len(q)))
Bu(b, alt, re, sg) == [t |-> "bu", b |-> b, alt |-> alt, re |-> re, sigs |-> sg]
Mp(b, from, to, alt) == [t |-> "mp", b |-> b, from |-> from, to |-> to, alt |-> alt]
BuAlts == <<"height", "round", "pchash", "path", "dir", "nid", "sn+", "sn-", "flag", "prev", "noprev", "count", "root", "pc", "pcnull">>
ReAlts(b) == <<"nid", "prev", "noprev", "sn+", "sn-">> \o (IF c.blocks[b].set # 0 THEN <<"pc", "pcnull">> ELSE <<"flag">>)
AnyBlock == R(DOMAIN c.blocks)
Full(vs) == [i \in DOMAIN c.sets[vs] |-> Sig(c.sets[vs][i], "ok")]
NewBu(st) ==
  LET b == IF st.b < Len(c.blocks) /\ R(1..8) > 1 THEN st.b + 1 ELSE AnyBlock
      z == R(1..16)
  IN IF b = 1 /\ z <= 2 THEN Bu(1, "none", FALSE, Sigs(st.vs))
     ELSE CASE z = 1 -> Bu(b, RS(BuAlts), FALSE, Full(st.vs))
       [] z = 2 -> Bu(b, RS(ReAlts(b)), TRUE, Full(st.vs))
       [] OTHER -> Bu(b, "none", FALSE, IF z <= 8 THEN Full(st.vs) ELSE Sigs(st.vs))
NewMp(st) ==
  LET m == c.blocks[st.b].m  z == R(1..14)
      to == IF Left(c, st) = 0 THEN st.done ELSE R((st.done + 1)..m)
  IN CASE z = 1 -> LET b == AnyBlock f == R(0..c.blocks[b].m) IN Mp(b, f, R(f..c.blocks[b].m), "none")
       [] z = 2 -> LET f == R(0..m) IN Mp(st.b, f, R(f..m), "none")
       [] z = 3 -> Mp(st.b, st.done, to, RS(<<"msg", "drop", "more", "swap", "node">>))
       [] z = 4 -> Mp(st.b, st.done, to, "forge")
       [] z = 5 -> Mp(st.b, st.done, to, "coll")
       [] z = 6 -> Mp(st.b, st.done, to, RS(<<"forge", "wrap", "coll">>))
       [] z \in {7, 8, 9} -> Mp(st.b, st.done, m, "none")
       [] OTHER -> Mp(st.b, st.done, to, "none")
\* items for the state which the ones before lead to, when they are taken
After(st, it) == IF it.t = "bu" THEN Update(c, st, it).s ELSE Proof(c, st, it, FALSE, 0).s
RECURSIVE Items(_, _)
Items(st, n) ==
  IF n = 0 THEN << >>
  ELSE LET it == IF (Left(c, st) = 0 /\ R(1..10) > 1) \/ R(1..15) = 1 THEN NewBu(st) ELSE NewMp(st)
       IN <<it>> \o (IF it.t = "mp" /\ Forged(it) THEN << >> ELSE Items(After(st, it), n - 1))
Call ==
  [by |-> IF R(1..25) = 1 THEN "other" ELSE "bmc", cur |-> IF R(1..25) = 1 THEN RS(<<"other", "junk">>) ELSE "bmc",
   prev |-> IF R(1..25) = 1 THEN RS(<<"other", "junk">>) ELSE "src", dseq |-> IF R(1..20) = 1 THEN RS(<<-1, 1, 2>>) ELSE 0,
   dam |-> IF R(1..12) = 1 THEN RS(<<"flip", "flip", "cut">>) ELSE "none", items |-> Items(s, RS(<<0, 1, 1, 1, 2, 2, 3, 4, 6>>))]
GInit == k \in 1..1 /\ c = << >> /\ s = << >> /\ hist = << >>
\* the chain is made by a step: TLC works out the initial states once
Make == c = << >> /\ \E x \in {Distinct(MkChain)} : c' = x /\ s' = Start(x) /\ UNCHANGED <<hist, k>>
Go == c # << >> /\ \E o \in {Call} :
  LET x == Relay(c, s, o, 0)
  IN /\ hist' = Append(hist, o)
     \* what may go either way is taken to be refused here
     /\ s' = IF x.r = "ok" THEN x.s ELSE s
     /\ UNCHANGED <<c, k>>
GNext == Make \/ Go
MaxOps == atoi(IOEnv.GENLEN)
Say == Len(hist) >= MaxOps => PrintT("SCN" \o ToJson([c |-> c, ops |-> hist]))
Stop == Len(hist) < MaxOps
GSpec == GInit /\ [][GNext]_<<c, s, hist, k>>
=============================================================================
