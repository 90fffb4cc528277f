-------------------------------- MODULE MBT --------------------------------
(* Merkle binary tree of a BTP block's messages (common/mbt).                  *)
(* Hashes are terms: H(content i) is <<i>>, H(l,r) is <<l,r>>; the hash is     *)
(* injective on what it is given.  Because the real hash sees only a byte      *)
(* string, a "content" made of two digests hashes to an inner node: an         *)
(* adversary may use it (see Forged).                                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

RECURSIVE Pow2Below(_, _)
Pow2Below(n, p) == IF 2 * p >= n THEN p ELSE Pow2Below(n, 2 * p)
\* number of leaves of the left subtree of a tree of n >= 2 leaves
Split(n) == Pow2Below(n, 1)

RECURSIVE Node(_, _)
Node(lo, hi) == IF lo = hi THEN <<lo>>
                ELSE LET m == lo + Split(hi - lo + 1) - 1
                     IN <<Node(lo, m), Node(m + 1, hi)>>
Root(n) == Node(1, n)

PN(lo, hi) == [n |-> hi - lo + 1, v |-> Node(lo, hi)]

\* the subtrees left of leaf b, left to right
RECURSIVE LeftOf(_, _, _)
LeftOf(lo, hi, b) ==
  IF lo = hi THEN <<>>
  ELSE LET m == lo + Split(hi - lo + 1) - 1
       IN IF b > m THEN <<PN(lo, m)>> \o LeftOf(m + 1, hi, b) ELSE LeftOf(lo, m, b)
\* the subtrees right of leaf e, left to right
RECURSIVE RightOf(_, _, _)
RightOf(lo, hi, e) ==
  IF lo = hi THEN <<>>
  ELSE LET m == lo + Split(hi - lo + 1) - 1
       IN IF e > m THEN RightOf(m + 1, hi, e) ELSE RightOf(lo, m, e) \o <<PN(m + 1, hi)>>

\* siblings of leaf i from the bottom up, right = sibling is on the right
RECURSIVE PathOf(_, _, _)
PathOf(lo, hi, i) ==
  IF lo = hi THEN <<>>
  ELSE LET m == lo + Split(hi - lo + 1) - 1
       IN IF i > m THEN PathOf(m + 1, hi, i) \o <<[right |-> FALSE, v |-> Node(lo, m)]>>
                   ELSE PathOf(lo, m, i) \o <<[right |-> TRUE, v |-> Node(m + 1, hi)]>>

Range(b, e) == [i \in 1..(e - b + 1) |-> b + i - 1]
Proof(n, b, e) == [left  |-> IF b = 1 THEN <<>> ELSE LeftOf(1, n, b),
                   cont  |-> Range(b, e),
                   right |-> IF e = n THEN <<>> ELSE RightOf(1, n, e)]

-----------------------------------------------------------------------------
(* Verification of a proof, as the chain (and MerkleBinaryTreeProof.Root) does  *)
(* it: left nodes, contents and right nodes are put in a tree in that order,    *)
(* with the number of leaves each claims; the shape is checked afterwards.      *)
(* A tree under reconstruction: [num, lvl, h] (leaf-like) or with l, r.         *)
RECURSIVE Lvl(_)
Lvl(n) == IF n = 0 THEN 0 ELSE IF n = 1 THEN 1 ELSE IF n = 2 THEN 2 ELSE
          1 + Lvl((n + 1) \div 2)
Atom(n, h) == [k |-> "a", num |-> n, lvl |-> Lvl(n), h |-> h]
RECURSIVE Add(_, _, _)
Add(t, n, h) ==
  IF t.k = "n" /\ t.l.num # t.r.num
  THEN [t EXCEPT !.r = Add(t.r, n, h), !.num = t.num + n]
  ELSE [k |-> "n", num |-> t.num + n, lvl |-> t.lvl + 1, l |-> t, r |-> Atom(n, h)]
RECURSIVE Hash(_)
Hash(t) == IF t.k = "a" THEN t.h ELSE <<Hash(t.l), Hash(t.r)>>
RECURSIVE ShapeOK(_)
ShapeOK(t) ==
  IF t.lvl = 1 THEN t.num = 1
  ELSE t.k = "a" \/
       /\ t.l.lvl >= t.r.lvl
       /\ ShapeOK(t.l)
       /\ (t.lvl > 2 => 2 ^ (t.l.lvl - 1) = t.l.num)
       /\ ShapeOK(t.r)
RECURSIVE Build(_, _)
Build(t, s) == IF s = <<>> THEN t
               ELSE Build(IF t.k = "0" THEN Atom(Head(s).n, Head(s).v)
                                       ELSE Add(t, Head(s).n, Head(s).v), Tail(s))
Sum(s) == LET RECURSIVE S(_)
              S(i) == IF i = 0 THEN 0 ELSE s[i].n + S(i - 1)
          IN S(Len(s))
\* items: a proof whose contents are given by the term they hash to
Verify(left, contTerms, right) ==
  LET items == left \o [i \in 1..Len(contTerms) |-> [n |-> 1, v |-> contTerms[i]]] \o right
      t     == Build([k |-> "0"], items)
  IN [h |-> Hash(t), left |-> Sum(left), total |-> Sum(items), ok |-> ShapeOK(t)]
-----------------------------------------------------------------------------
(* Every way to present the tree of n leaves as a proof, honest or not:         *)
(* a cut of the tree (nodes covering the leaves in order), a non-empty part of  *)
(* the cut presented as contents, the others as proof nodes with claimed leaf   *)
(* counts that make the claimed total n.                                        *)
RECURSIVE Cuts(_, _)
Cuts(lo, hi) ==
  {<<<<lo, hi>>>>} \cup
  (IF lo = hi THEN {}
   ELSE LET m == lo + Split(hi - lo + 1) - 1
        IN {a \o b : a \in Cuts(lo, m), b \in Cuts(m + 1, hi)})
RECURSIVE Comps(_, _)   \* sequences of k positive numbers with sum s
Comps(k, s) == IF k = 0 THEN (IF s = 0 THEN {<<>>} ELSE {})
               ELSE IF s < k THEN {}
               ELSE UNION {{<<x>> \o r : r \in Comps(k - 1, s - x)} : x \in 1..(s - k + 1)}
Forged(n) ==
  UNION {UNION {LET k == Len(c) - (e - b + 1) IN
     {[n |-> n,
       left  |-> [i \in 1..(b - 1) |-> [n |-> cs[i], v |-> Node(c[i][1], c[i][2])]],
       cont  |-> [i \in 1..(e - b + 1) |-> Node(c[b + i - 1][1], c[b + i - 1][2])],
       right |-> [i \in 1..(Len(c) - e) |-> [n |-> cs[b - 1 + i], v |-> Node(c[e + i][1], c[e + i][2])]]]
        : cs \in Comps(k, n - (e - b + 1))}
     : b \in 1..Len(c), e \in 1..Len(c)} : c \in Cuts(1, n)}
\* b > e cannot occur: Comps then asks for more nodes than there are
Forgeries(n) == {f \in Forged(n) : f.cont # <<>>}
Genuine(f) == \A i \in 1..Len(f.cont) : f.cont[i] = <<Sum(f.left) + i>>
=============================================================================
