------------------------------ MODULE TraceFlux ------------------------------
(* Flux tables recorded from makeimage, with the images they are to be understood from *)
EXTENDS Flux, Json
VARIABLES c, l
Traces == ndJsonDeserialize("trace.ndjson")
Ev == Traces[c].ev[l]
TraceInit == FInit /\ c \in 1..Len(Traces) /\ l = 1
TraceNext == /\ l <= Len(Traces[c].ev) /\ l' = l + 1 /\ c' = c
             /\ CASE Ev.e = "add" -> Add(Ev.c, Ev.k, Ev.img)
                  [] Ev.e = "table" -> Tabulate(Ev.rows, Ev.zp, Ev.k)
                  [] Ev.e = "again" -> Again(Ev.rows)
                  [] Ev.e = "nofile" -> NoFile(Ev.status)
                  [] OTHER -> FALSE /\ UNCHANGED fvars
TraceSpec == TraceInit /\ [][TraceNext]_<<fvars, c, l>>
Report == (l = Len(Traces[c].ev) + 1) => PrintT("@@ok " \o ToString(c))
Progress == PrintT("@@at " \o ToString(l - 1))
=============================================================================
