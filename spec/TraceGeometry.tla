---------------------------- MODULE TraceGeometry ----------------------------
(* Views of one image function recorded from makeimage against Geometry *)
EXTENDS Geometry, Json
VARIABLES c, l
Traces == ndJsonDeserialize("trace.ndjson")
Ev == Traces[c].ev[l]
Shape(img, z) == Len(img) = z[2] /\ \A y \in 1..z[2] : Len(img[y]) = z[1]
TraceInit == GInit /\ c \in 1..Len(Traces) /\ l = 1
TraceNext == /\ l <= Len(Traces[c].ev) /\ Ev.e \in {"view", "sub"}
             /\ Shape(Ev.out, Ev.size)
             /\ IF Ev.e = "view" THEN View(Ev.v, Ev.out) ELSE Subsampled(Ev.v, Ev.out, Ev.part)
             /\ l' = l + 1 /\ c' = c
TraceSpec == TraceInit /\ [][TraceNext]_<<seen, c, l>>
Report == (l = Len(Traces[c].ev) + 1) => PrintT("@@ok " \o ToString(c))
Progress == PrintT("@@at " \o ToString(l - 1))
=============================================================================
