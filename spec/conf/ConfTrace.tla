----------------------------- MODULE ConfTrace ------------------------------
EXTENDS Conf, TraceKit
VARIABLE file
Init == TKInit /\ file = Fresh
Step(ev) ==
  CASE ev.op = "save" ->
         IF Ok(file, ev.o)
         THEN /\ ev.ok /\ file' = After(file, ev.o)
              /\ \A s \in Plain \cup Paths \cup Keys : ev.got[s] = file'[s]
              /\ \A side \in Sides : ev.got[SecretOf(side)] = file'[SecretOf(side)]
              /\ ~ev.leak                       \* no password in the file
         ELSE ~ev.ok /\ ~ev.written /\ UNCHANGED file
    [] ev.op = "bad" -> ~ev.ok /\ ~ev.written /\ UNCHANGED file
    [] OTHER -> FALSE
Next == TKStep /\ Step(Ev)
Spec == Init /\ [][Next]_<<sc, l, file>>
=============================================================================
