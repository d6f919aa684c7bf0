------------------------------ MODULE TraceMcmc ------------------------------
EXTENDS Mcmc, Json
VARIABLES c, l
Traces == ndJsonDeserialize("trace.ndjson")
Ev == Traces[c].ev[l]
TraceInit == MInit /\ c \in 1..Len(Traces) /\ l = 1
Keep == UNCHANGED mvars
TraceNext == /\ l <= Len(Traces[c].ev) /\ l' = l + 1 /\ c' = c
             /\ CASE Ev.e = "start" -> Start(Ev.cfg, Ev.rows, Ev.cells)
                  [] Ev.e = "again" -> Again(Ev.c, Ev.key)
                  [] Ev.e = "gen" -> Generation(Ev.ev, Ev.rows, Ev.rhat)
                  [] Ev.e = "end" -> Ended(Ev.converged, Ev.rhat)
                  [] Ev.e = "accepts" -> Accepts(Ev.bins) /\ Keep
                  [] Ev.e = "crosses" -> Crosses(Ev.d, Ev.n, Ev.none, Ev.all) /\ Keep
                  [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][TraceNext]_<<mvars, c, l>>
Report == (l = Len(Traces[c].ev) + 1) => PrintT("@@ok " \o ToString(c))
Progress == PrintT("@@at " \o ToString(l - 1))
=============================================================================
