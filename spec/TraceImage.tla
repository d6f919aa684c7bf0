------------------------------ MODULE TraceImage ------------------------------
(* Recorded runs of the programs against Image: one case per line of trace.ndjson; the events of a
   case are the set-up steps in the configuration file's order, then the images found in the files. *)
EXTENDS Image, Json

VARIABLES c, l
Traces == ndJsonDeserialize("trace.ndjson")

Ev == Traces[c].ev[l]
IsEvent(e) == l <= Len(Traces[c].ev) /\ Ev.e = e /\ l' = l + 1 /\ c' = c

Near(a, b) == a - b <= 1 /\ b - a <= 1
Same(img, out) ==
  /\ Len(out) = dim.ny
  /\ \A y \in 1..dim.ny : Len(out[y]) = dim.nx /\ \A x \in 1..dim.nx : Near(img[y][x], out[y][x])

TraceInit == Init /\ c \in 1..Len(Traces) /\ l = 1
TraceNext ==
  \/ IsEvent("size") /\ SetSize(Ev.nx, Ev.ny)
  \/ IsEvent("set") /\ NewSet(Ev.x, Ev.y)
  \/ IsEvent("fn") /\ AddFunction(Ev.fn)
  \/ IsEvent("psf") /\ AddPsf(Ev.psf)
  \/ IsEvent("region") /\ AddRegion(Ev.region)
  \/ IsEvent("image") /\ Same(ImageOf(Flat(sets), psf, regions, dim), Ev.out)
       /\ shown' = [kind |-> "image"] /\ UNCHANGED <<dim, sets, psf, regions>>
  \/ IsEvent("one") /\ shown # Nothing /\ Same(ImageOf(<<Flat(sets)[Ev.n]>>, psf, regions, dim), Ev.out)
       /\ shown' = [kind |-> "one"] /\ UNCHANGED <<dim, sets, psf, regions>>
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, c, l>>

Report == (l = Len(Traces[c].ev) + 1) => PrintT("@@ok " \o ToString(c))
Progress == PrintT("@@at " \o ToString(l - 1))
=============================================================================
