------------------------------- MODULE TraceRuns -------------------------------
(* Runs of the real programs *)
EXTENDS Runs, Json
VARIABLES c, l
Traces == ndJsonDeserialize("trace.ndjson")
Ev == Traces[c].ev[l]
TraceInit == RInit /\ c \in 1..Len(Traces) /\ l = 1
TraceNext == /\ l <= Len(Traces[c].ev) /\ l' = l + 1 /\ c' = c
             /\ IF Ev.e = "run" THEN Run(Ev.k, Ev.w, Ev.r) ELSE FALSE /\ UNCHANGED rvars
TraceSpec == TraceInit /\ [][TraceNext]_<<rvars, c, l>>
Report == (l = Len(Traces[c].ev) + 1) => PrintT("@@ok " \o ToString(c))
Progress == PrintT("@@at " \o ToString(l - 1))
=============================================================================
