----------------------------- MODULE RelayDesign -----------------------------
(* The relay between two chains as a whole: each enabled direction is followed   *)
(* by a Link which reads the status of its destination when it starts; the       *)
(* process may be killed at any moment and started again; other relayers may     *)
(* bring the same messages; a transaction is executed only if it begins with the *)
(* message after the last one.                                                   *)
EXTENDS Naturals, FiniteSets
CONSTANTS Dirs, Enabled, Max, Kills
VARIABLES emitted,  \* per direction: messages in the source chain
          rx,       \* per direction: last message the destination executed
          view,     \* per direction: last message the relay has sent or seen
          flying,   \* per direction: ranges of transactions on their way
          up, kills, got
vars == <<emitted, rx, view, flying, up, kills, got>>
Init == /\ emitted = [d \in Dirs |-> 0] /\ rx = [d \in Dirs |-> 0] /\ view = [d \in Dirs |-> 0]
        /\ flying = [d \in Dirs |-> {}] /\ up = FALSE /\ kills = 0 /\ got = [d \in Dirs |-> [i \in 1..Max |-> 0]]
Emit(d) == emitted[d] < Max /\ emitted' = [emitted EXCEPT ![d] = @ + 1] /\ UNCHANGED <<rx, view, flying, up, kills, got>>
Start == ~up /\ up' = TRUE /\ view' = rx /\ UNCHANGED <<emitted, rx, flying, kills, got>>
Kill == up /\ kills < Kills /\ up' = FALSE /\ kills' = kills + 1 /\ UNCHANGED <<emitted, rx, view, flying, got>>
Send(d) == /\ up /\ d \in Enabled /\ view[d] < emitted[d]
           /\ \E t \in (view[d] + 1)..emitted[d] :
                /\ flying' = [flying EXCEPT ![d] = @ \cup {<<view[d] + 1, t>>}]
                /\ view' = [view EXCEPT ![d] = t]
           /\ UNCHANGED <<emitted, rx, up, kills, got>>
Mark(d, a, b) == got' = [got EXCEPT ![d] = [i \in 1..Max |-> IF i \in a..b THEN @[i] + 1 ELSE @[i]]]
Execute1(d, f) ==
   /\ f \in flying[d]
   /\ flying' = [flying EXCEPT ![d] = @ \ {f}]
   /\ IF f[1] = rx[d] + 1
      THEN rx' = [rx EXCEPT ![d] = f[2]] /\ Mark(d, f[1], f[2]) /\ UNCHANGED view
      ELSE /\ UNCHANGED <<rx, got>>   \* rejected: the status is read again
           /\ view' = IF up THEN [view EXCEPT ![d] = rx[d]] ELSE view
   /\ UNCHANGED <<emitted, up, kills>>
Execute(d) == \E f \in flying[d] : Execute1(d, f)
Other(d) == \* another relayer: our own transactions will be rejected
   /\ d \in Enabled /\ rx[d] < emitted[d] /\ rx' = [rx EXCEPT ![d] = @ + 1] /\ Mark(d, rx[d] + 1, rx[d] + 1)
   /\ view' = IF up /\ view[d] <= rx[d] THEN [view EXCEPT ![d] = rx[d] + 1] ELSE view
   /\ UNCHANGED <<emitted, flying, up, kills>>
Next == Start \/ Kill \/ \E d \in Dirs : Emit(d) \/ Send(d) \/ Execute(d) \/ Other(d)
Spec == Init /\ [][Next]_vars /\ WF_vars(Start)
        /\ \A d \in Dirs : WF_vars(Send(d)) /\  WF_vars(Emit(d))
        /\ \A e \in Dirs, a, b \in 1..Max : WF_vars(Execute1(e, <<a, b>>))
Once == \A d \in Dirs, i \in 1..Max : got[d][i] = IF i <= rx[d] THEN 1 ELSE 0
Only == \A d \in Dirs \ Enabled : rx[d] = 0 /\ flying[d] = {}
Delivered == \A d \in Enabled : <>[](rx[d] = Max)
=============================================================================
