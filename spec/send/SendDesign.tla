----------------------------- MODULE SendDesign -----------------------------
(* The sender, the transaction pool of a node and the message buffer of the     *)
(* contract.  A message is a number of units; a transaction takes at most Limit *)
(* units.  The pool refuses a transaction at will (full, expired, for another    *)
(* reason) or has it already; accepted transactions are executed in order and    *)
(* may fail.  Each part of the payload is identified by (message, unit).         *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Limit, MaxSize, NMsgs, MaxRefusals, Codes

VARIABLES size,    \* message -> units
          cur,     \* message being relayed (0: none) and the parts still to be sent
          todo,
          pool,    \* accepted transactions
          nexec,   \* executed ones
          buf,     \* the contract: [idx, units]; idx -1: nothing expected
          dlv,     \* payloads the contract has handled
          outc,    \* transaction -> outcome
          acc,     \* message -> its last transaction, when Relay has returned it
          rep,     \* reported rejections <<message, code>>
          sts,     \* messages whose outcome was followed by a status
          nm, refs
vars == <<size, cur, todo, pool, nexec, buf, dlv, outc, acc, rep, sts, nm, refs>>

Units(m, a, b) == [i \in 1..(b - a + 1) |-> <<m, a + i - 1>>]

\* as the sender cuts it: at an exact multiple the last part is empty
Parts(m) ==
  LET n == size[m] k == n \div Limit IN
  IF k = 0 THEN <<[m |-> m, idx |-> 0, one |-> TRUE, u |-> Units(m, 1, n)]>>
  ELSE [i \in 1..(k + 1) |->
         [m |-> m, one |-> FALSE,
          idx |-> IF i = 1 THEN -k ELSE k + 1 - i,
          u |-> Units(m, (i - 1) * Limit + 1, IF i = k + 1 THEN n ELSE i * Limit)]]

Init == /\ size \in [1..NMsgs -> 1..MaxSize]
        /\ cur = 0 /\ todo = <<>> /\ pool = <<>> /\ nexec = 0 /\ buf = [idx |-> -1, u |-> <<>>]
        /\ dlv = <<>> /\ outc = <<>> /\ acc = <<>> /\ rep = {} /\ sts = {} /\ nm = 0 /\ refs = 0

Relay == /\ cur = 0 /\ nm < NMsgs
         /\ nm' = nm + 1 /\ cur' = nm + 1 /\ todo' = Parts(nm + 1)
         /\ UNCHANGED <<size, pool, nexec, buf, dlv, outc, acc, rep, sts, refs>>

\* accepted now or found to be in the pool already
Accept == /\ cur # 0 /\ todo # <<>>
          /\ pool' = Append(pool, Head(todo)) /\ todo' = Tail(todo)
          /\ UNCHANGED <<size, cur, nexec, buf, dlv, outc, acc, rep, sts, nm, refs>>

\* full or expired: the same part is sent again
Refuse == /\ cur # 0 /\ todo # <<>> /\ refs < MaxRefusals /\ refs' = refs + 1
          /\ UNCHANGED <<size, cur, todo, pool, nexec, buf, dlv, outc, acc, rep, sts, nm>>

\* any other answer: the message is given up
Fail == /\ cur # 0 /\ todo # <<>> /\ refs < MaxRefusals /\ refs' = refs + 1
        /\ cur' = 0 /\ todo' = <<>>
        /\ UNCHANGED <<size, pool, nexec, buf, dlv, outc, acc, rep, sts, nm>>

Return == /\ cur # 0 /\ todo = <<>>
          /\ acc' = Append(acc, [m |-> cur, tx |-> Len(pool)]) /\ cur' = 0
          /\ UNCHANGED <<size, todo, pool, nexec, buf, dlv, outc, rep, sts, nm, refs>>

\* the contract
Exec == /\ nexec < Len(pool)
        /\ LET t == pool[nexec + 1]
               whole == IF t.one THEN t.u ELSE buf.u \o t.u IN
           \/ /\ t.one
              /\ \E c \in Codes \cup {"ok"} :
                   /\ outc' = Append(outc, c)
                   /\ dlv' = IF c = "ok" THEN Append(dlv, whole) ELSE dlv
              /\ UNCHANGED buf
           \/ /\ ~t.one /\ t.idx < 0 /\ buf' = [idx |-> -t.idx - 1, u |-> t.u]
              /\ outc' = Append(outc, "ok") /\ UNCHANGED dlv
           \/ /\ ~t.one /\ t.idx >= 0 /\ buf.idx = t.idx
              /\ IF t.idx > 0
                 THEN buf' = [idx |-> t.idx - 1, u |-> whole] /\ outc' = Append(outc, "ok") /\ UNCHANGED dlv
                 ELSE /\ buf' = [idx |-> -1, u |-> <<>>]
                      /\ \E c \in Codes \cup {"ok"} :
                           /\ outc' = Append(outc, c)
                           /\ dlv' = IF c = "ok" THEN Append(dlv, whole) ELSE dlv
           \/ /\ ~t.one /\ t.idx >= 0 /\ buf.idx # t.idx
              /\ outc' = Append(outc, "bad") /\ UNCHANGED <<buf, dlv>>
        /\ nexec' = nexec + 1
        /\ UNCHANGED <<size, cur, todo, pool, acc, rep, sts, nm, refs>>

\* the sender learns the outcome of the last transaction of a message
Result == \E i \in 1..Len(acc) :
            /\ acc[i].m \notin sts /\ acc[i].tx <= nexec
            /\ LET c == outc[acc[i].tx] IN rep' = IF c \in Codes THEN rep \cup {<<acc[i].m, c>>} ELSE rep
            /\ sts' = sts \cup {acc[i].m}
            /\ UNCHANGED <<size, cur, todo, pool, nexec, buf, dlv, outc, acc, nm, refs>>

Next == Relay \/ Accept \/ Refuse \/ Fail \/ Return \/ Exec \/ Result
Spec == Init /\ [][Next]_vars /\ WF_vars(Relay \/ Accept \/ Return) /\ WF_vars(Exec) /\ WF_vars(Result)

Whole(m) == Units(m, 1, size[m])
\* the contract never handles anything but complete messages, in order, at most once
Intact == /\ \A i \in 1..Len(dlv) : \E m \in 1..nm : dlv[i] = Whole(m)
          /\ \A i, j \in 1..Len(dlv) : i < j => dlv[i][1][1] < dlv[j][1][1]
Small == \A i \in 1..Len(pool) : Len(pool[i].u) <= Limit
\* the last transaction of an accepted message is the one which completes it
Complete == \A i \in 1..Len(acc) : acc[i].tx <= nexec =>
              /\ outc[acc[i].tx] # "bad"
              /\ outc[acc[i].tx] = "ok" => \E k \in 1..Len(dlv) : dlv[k] = Whole(acc[i].m)
Truthful == \A r \in rep : \E i \in 1..Len(acc) : acc[i].m = r[1] /\ outc[acc[i].tx] = r[2]
Told == <>[](\A i \in 1..Len(acc) : acc[i].m \in sts /\ (outc[acc[i].tx] \in Codes => <<acc[i].m, outc[acc[i].tx]>> \in rep))
=============================================================================
