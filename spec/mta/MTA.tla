-------------------------------- MODULE MTA --------------------------------
(* Merkle tree accumulator (common/mta).  Leaves are numbered from 0.  A hash   *)
(* is the block of leaves it covers, <<first, size>>; two hashes combine to the *)
(* block that covers both when they are aligned siblings, else to Bad.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Bit(n, k) == (n \div 2 ^ k) % 2
RECURSIVE Width(_)
Width(n) == IF n = 0 THEN 0 ELSE 1 + Width(n \div 2)
Bad == <<-1, 0>>
Nil == <<0, 0>>
Leaf(i) == <<i, 1>>
Low(n, k) == (n \div 2 ^ (k + 1)) * 2 ^ (k + 1)
\* closed form of the root at position k of the accumulator of n leaves
RootAt(n, k) == IF Bit(n, k) = 1 THEN <<Low(n, k), 2 ^ k>> ELSE Nil
Roots(n) == [k \in 1..Width(n) |-> RootAt(n, k - 1)]
Join(a, b) == IF a # Bad /\ b # Bad /\ a[2] = b[2] /\ b[1] = a[1] + a[2] /\ a[1] % (2 * a[2]) = 0
              THEN <<a[1], 2 * a[2]>> ELSE Bad

Depth(i, n) == CHOOSE k \in 0..Width(n) : Bit(n, k) = 1 /\ Low(n, k) <= i /\ i < Low(n, k) + 2 ^ k
Sib(i, j) == LET q == i \div 2 ^ j IN
             IF q % 2 = 0 THEN [d |-> "R", v |-> <<(q + 1) * 2 ^ j, 2 ^ j>>]
                          ELSE [d |-> "L", v |-> <<(q - 1) * 2 ^ j, 2 ^ j>>]
\* what the owner of an accumulator of n > i leaves answers for leaf i
Witness(i, n) == [j \in 1..Depth(i, n) |-> Sib(i, j - 1)]

Fold(h, ws) == LET RECURSIVE F(_, _)
                   F(x, k) == IF k > Len(ws) THEN x
                              ELSE F(IF ws[k].d = "L" THEN Join(ws[k].v, x) ELSE Join(x, ws[k].v), k + 1)
               IN F(h, 1)
Verify(n, ws, h) == LET k == Len(ws) IN
   k < Width(n) /\ RootAt(n, k) # Nil /\ Fold(h, ws) = RootAt(n, k)

\* position of the leaf that a witness made at length wl speaks of
RECURSIVE PosOff(_, _, _)
PosOff(ws, wl, i) == IF i = 0 THEN 0 ELSE
   PosOff(ws, wl, i - 1) + (IF ws[i].d = "R" THEN 2 ^ (i - 1) ELSE 0) + Bit(wl, i - 1) * 2 ^ (i - 1)
Pos(ws, wl) == wl - 1 - PosOff(ws, wl, Len(ws))
\* verification by an accumulator of n leaves of a witness made at length wl
VerifyAt(n, ws, h, wl) ==
  IF n = wl THEN Verify(n, ws, h)
  ELSE LET p == Pos(ws, wl) IN
       /\ p >= 0 /\ p < n
       /\ IF n > wl
          THEN LET g == Witness(p, n) IN
               Len(ws) <= Len(g) /\ Verify(n, ws \o SubSeq(g, Len(ws) + 1, Len(g)), h)
          ELSE Depth(p, n) <= Len(ws) /\ Verify(n, SubSeq(ws, 1, Depth(p, n)), h)
IsLeafOf(h, n) == h[2] = 1 /\ h[1] >= 0 /\ h[1] < n
=============================================================================
