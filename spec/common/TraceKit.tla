------------------------------ MODULE TraceKit ------------------------------
(* Shared part of the trace specifications.  The driver records, per scenario,  *)
(* one JSON array of events; a trace is accepted when the specification can     *)
(* consume all of it.  Each scenario is an initial state, so one TLC run        *)
(* validates many traces and a rejected one does not stop the others.           *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES sc, l

Ev   == Traces[sc][l]
More == l <= Len(Traces[sc])
TKInit == sc \in 1..Len(Traces) /\ l = 1
TKStep == More /\ l' = l + 1 /\ UNCHANGED sc
Report == /\ (l = Len(Traces[sc]) + 1 => PrintT(<<"ACCEPT", sc>>))
          /\ (IOEnv.TRDEBUG = "1" => PrintT(<<"AT", sc, l>>))
Has(r, f) == f \in DOMAIN r
=============================================================================
