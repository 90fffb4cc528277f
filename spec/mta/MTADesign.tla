----------------------------- MODULE MTADesign -----------------------------
(* The accumulator as a machine: leaves are added with carries, the state is    *)
(* flushed node by node and finally the state record, a crash keeps only what   *)
(* was written, recovery reads the state record.                                *)
EXTENDS MTA
CONSTANTS MaxLen, MaxAttack
VARIABLES len, roots,          \* volatile accumulator
          disk,                \* blocks (inner nodes and leaves) written
          state,               \* the durable state record: its length
          pend,                \* writes still to do by the flush in progress
          q                    \* a verification request
vars == <<len, roots, disk, state, pend, q>>
NoQ == [k |-> "none"]
Init == len = 0 /\ roots = <<>> /\ disk = {} /\ state = 0 /\ pend = <<>> /\ q = NoQ

RECURSIVE Carry(_, _, _)
Carry(r, k, x) == IF k > Len(r) THEN Append(r, x)
                  ELSE IF r[k] = Nil THEN [r EXCEPT ![k] = x]
                  ELSE Carry([r EXCEPT ![k] = Nil], k + 1, Join(r[k], x))
Add == pend = <<>> /\ len < MaxLen /\ q = NoQ
       /\ roots' = Carry(roots, 1, Leaf(len)) /\ len' = len + 1
       /\ UNCHANGED <<disk, state, pend, q>>
\* blocks below b, children before parents
RECURSIVE Below(_)
Below(b) == IF b[2] = 1 THEN <<b>>
            ELSE Below(<<b[1], b[2] \div 2>>) \o Below(<<b[1] + b[2] \div 2, b[2] \div 2>>) \o <<b>>
RECURSIVE Cat(_, _)
Cat(r, k) == IF k > Len(r) THEN <<>> ELSE (IF r[k] = Nil THEN <<>> ELSE Below(r[k])) \o Cat(r, k + 1)
FlushBegin == pend = <<>> /\ state # len /\ q = NoQ
              /\ pend' = SelectSeq(Cat(roots, 1), LAMBDA b : b \notin disk) \o <<<<-2, len>>>>
              /\ UNCHANGED <<len, roots, disk, state, q>>
FlushWrite == pend # <<>> /\ pend' = Tail(pend) /\ UNCHANGED <<len, roots, q>>
              /\ IF Head(pend)[1] = -2 THEN state' = Head(pend)[2] /\ UNCHANGED disk
                                       ELSE disk' = disk \cup {Head(pend)} /\ UNCHANGED state
\* an interrupted flush leaves the volatile state; a crash loses it
FlushError == pend # <<>> /\ pend' = <<>> /\ UNCHANGED <<len, roots, disk, state, q>>
Crash == len' = state /\ roots' = Roots(state) /\ pend' = <<>> /\ q' = NoQ /\ UNCHANGED <<disk, state>>
Next == Add \/ FlushBegin \/ FlushWrite \/ FlushError \/ Crash
Spec == Init /\ [][Next]_vars

RootsExact == roots = Roots(len)
\* everything the durable state refers to is on disk: a crash at any write is safe
DiskClosed == \A k \in 1..Len(Roots(state)) :
                LET r == Roots(state)[k] IN r # Nil => \A i \in 1..Len(Below(r)) : Below(r)[i] \in disk
=============================================================================
