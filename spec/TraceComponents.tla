--------------------------- MODULE TraceComponents ---------------------------
(* Recorded runs of makeimage against Components: every event is an image and the components it shows *)
EXTENDS Components, Json
VARIABLES c, l
Traces == ndJsonDeserialize("trace.ndjson")
Ev == Traces[c].ev[l]
TraceInit == CInit /\ c \in 1..Len(Traces) /\ l = 1
Shape(img, z) == Len(img) = z[2] /\ \A y \in 1..z[2] : Len(img[y]) = z[1]
TraceNext == /\ l <= Len(Traces[c].ev) /\ Ev.e = "look"
             /\ Shape(Ev.out, Ev.size) /\ Look(Ev.cs, Ev.out)
             /\ l' = l + 1 /\ c' = c
TraceSpec == TraceInit /\ [][TraceNext]_<<seen, c, l>>
Report == (l = Len(Traces[c].ev) + 1) => PrintT("@@ok " \o ToString(c))
Progress == PrintT("@@at " \o ToString(l - 1))
=============================================================================
