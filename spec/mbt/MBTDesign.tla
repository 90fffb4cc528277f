----------------------------- MODULE MBTDesign -----------------------------
(* Design check: completeness and soundness of range proofs, all n <= MaxN,    *)
(* every range, every forgery of trees up to MaxForge leaves.                  *)
EXTENDS MBT, Json
CONSTANTS MaxN, MaxForge
VARIABLES n, kind, arg
Init == n \in 1..MaxN /\ kind = "tree" /\ arg = <<>>
Prove == kind = "tree" /\ kind' = "range" /\ n' = n /\ \E b, e \in 1..n : b <= e /\ arg' = <<b, e>>
Forge == kind = "tree" /\ n <= MaxForge /\ kind' = "forge" /\ n' = n /\ \E f \in Forgeries(n) : arg' = f
Next == Prove \/ Forge
Spec == Init /\ [][Next]_<<n, kind, arg>>
Complete == kind = "range" =>
  LET p == Proof(n, arg[1], arg[2])
      v == Verify(p.left, [i \in 1..Len(p.cont) |-> <<p.cont[i]>>], p.right)
  IN v = [h |-> Root(n), left |-> arg[1] - 1, total |-> n, ok |-> TRUE]
Sound == kind = "forge" =>
  LET v == Verify(arg.left, arg.cont, arg.right)
  IN v.ok /\ v.h = Root(n) /\ v.total = n => Genuine(arg)
=============================================================================
