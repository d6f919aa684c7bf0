---------------------------- MODULE TraceMultiImage ----------------------------
(* Runs of makemultimages and multimfit *)
EXTENDS MultiImage, Json
VARIABLES c, l
Traces == ndJsonDeserialize("trace.ndjson")
Ev == Traces[c].ev[l]
TraceInit == MMInit /\ c \in 1..Len(Traces) /\ l = 1
TraceNext == /\ l <= Len(Traces[c].ev) /\ l' = l + 1 /\ c' = c
             /\ CASE Ev.e = "set" -> AddSet(Ev.s)
                  [] Ev.e = "image" -> AddImage(Ev.im)
                  [] Ev.e = "picture" -> ShowImage(Ev.n, Ev.view, Ev.ppm)
                  [] Ev.e = "params" -> ShowParams(Ev.n, Ev.saved)
                  [] Ev.e = "stat" -> ShowStat(Ev.parts, Ev.und, Ev.wund, Ev.views, 100000000, Ev.pix, Ev.free, Ev.dof)
                  [] Ev.e = "again" -> ShowAgain(Ev.whole)
                  [] Ev.e = "fit" -> ShowFit(Ev.ps, Ev.start, Ev.end, Ev.checked)
                  [] Ev.e = "boot" -> ShowBoot(Ev.ps, Ev.asked, Ev.done, Ev.names, Ev.rows, Ev.summary)
                  [] OTHER -> FALSE /\ UNCHANGED mvars
TraceSpec == TraceInit /\ [][TraceNext]_<<mvars, c, l>>
Report == (l = Len(Traces[c].ev) + 1) => PrintT("@@ok " \o ToString(c))
Progress == PrintT("@@at " \o ToString(l - 1))
=============================================================================
