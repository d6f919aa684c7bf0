------------------------------- MODULE TraceFiles -------------------------------
(* Runs of the real programs: each event is a run in a world and how it ended. *)
EXTENDS Files, Json
VARIABLES c, l
Traces == ndJsonDeserialize("trace.ndjson")
Ev == Traces[c].ev[l]
Set(s) == { s[i] : i \in 1..Len(s) }
None == [prog |-> "imfit", inputs |-> [r \in {} |-> ""], outputs |-> [r \in {} |-> ""]]
TraceInit == FInit(None) /\ c \in 1..Len(Traces) /\ l = 1
TraceNext == /\ l <= Len(Traces[c].ev) /\ l' = l + 1 /\ c' = c
             /\ ([end |-> Ev.end, wrote |-> Set(Ev.wrote), told |-> Set(Ev.told)] \in Ends(Ev.world)) = TRUE
             /\ Ev.said                      \* an error on the standard error stream for what went wrong
             /\ world' = Ev.world /\ phase' = Ev.end /\ seen' = {} /\ wrote' = Set(Ev.wrote) /\ told' = Set(Ev.told)
TraceSpec == TraceInit /\ [][TraceNext]_<<fvars, c, l>>
Report == (l = Len(Traces[c].ev) + 1) => PrintT("@@ok " \o ToString(c))
Progress == PrintT("@@at " \o ToString(l - 1))
================================================================================
