----------------------------- MODULE MBTTrace ------------------------------
EXTENDS MBT, TraceKit
VARIABLE n   \* number of leaves of the tree under test

In(i) == i >= 1 /\ i <= n
ProofOK(ev) ==
  IF ev.b >= 1 /\ ev.e >= 1 /\ ev.e <= n /\ ev.b <= ev.e
  THEN ev.ok /\ [left |-> ev.left, cont |-> ev.cont, right |-> ev.right] = Proof(n, ev.b, ev.e)
  ELSE ~ev.ok
ForgedOK(ev) ==   \* accepted as a proof of the tree of n leaves only if genuine
  LET f == [left |-> ev.left, cont |-> ev.cont, right |-> ev.right] IN
  /\ (ev.ok /\ ev.h = Root(ev.n) /\ ev.rtotal = ev.n
        => Genuine(f) /\ ev.rleft = Sum(f.left))
  /\ f = [left |-> Proof(ev.n, Sum(f.left) + 1, Sum(f.left) + Len(f.cont)).left,
          cont |-> f.cont,
          right |-> Proof(ev.n, Sum(f.left) + 1, Sum(f.left) + Len(f.cont)).right]
     /\ Genuine(f) => ev.ok /\ ev.h = Root(ev.n) /\ ev.rtotal = ev.n /\ ev.rleft = Sum(f.left)
HashOK(ev) ==
  CASE ev.uid = "icon" -> ev.known
        /\ ev.d1 = "3a985da74fe225b2045c172d6bd390bd855f086e3e9d525b46bfe24511431532" /\ ev.d2 = ev.d1
    [] ev.uid = "eth" -> ev.known
        /\ ev.d1 = "4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45" /\ ev.d2 = ev.d1
    [] OTHER -> ~ev.known
Step(ev) ==
  /\ (Has(ev, "panic") => ev.panic = "")
  /\ CASE ev.op = "new"   -> ev.ok /\ n' = ev.n
       [] ev.op = "add"   -> ev.ok /\ n' = n + 1 /\ ev.n = n + 1
       [] ev.op = "addnil" -> ~ev.ok /\ n' = n
       [] ev.op = "root"  -> n' = n /\ ev.len = n /\ ev.h = (IF n = 0 THEN <<0>> ELSE Root(n))
       [] ev.op = "get"   -> n' = n /\ ev.ok = In(ev.i) /\ (ev.ok => ev.c = ev.i)
       [] ev.op = "path"  -> n' = n /\ ev.ok = In(ev.i)
                               /\ (ev.ok => ev.c = ev.i /\ ev.h = Root(n) /\ ev.path = PathOf(1, n, ev.i))
       [] ev.op = "proof" -> n' = n /\ ProofOK(ev)
       [] ev.op = "verify" -> n' = n /\ ev.ok /\ ev.h = Root(n) /\ ev.rleft = ev.b - 1 /\ ev.rtotal = n
       [] ev.op = "forged" -> n' = n /\ ForgedOK(ev)
       [] ev.op = "uid"   -> n' = n /\ HashOK(ev)
Init == TKInit /\ n = 0
Next == TKStep /\ Step(Ev)
Spec == Init /\ [][Next]_<<sc, l, n>>
=============================================================================
