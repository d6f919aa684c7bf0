---------------------------- MODULE TraceProfiles ----------------------------
(* Images of single functions recorded from makeimage against their documented profiles *)
EXTENDS Profiles, Json
VARIABLES c, l
Traces == ndJsonDeserialize("trace.ndjson")
Ev == Traces[c].ev[l]
TraceInit == PInit /\ c \in 1..Len(Traces) /\ l = 1
TraceNext == /\ l <= Len(Traces[c].ev) /\ Ev.e = "show"
             /\ Show(Ev.fn, Ev.x, Ev.y, Ev.k, Ev.pts, Ev.out)
             /\ l' = l + 1 /\ c' = c
TraceSpec == TraceInit /\ [][TraceNext]_<<fn, shown, c, l>>
Report == (l = Len(Traces[c].ev) + 1) => PrintT("@@ok " \o ToString(c))
Progress == PrintT("@@at " \o ToString(l - 1))
=============================================================================
