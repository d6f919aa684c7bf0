---------------------------- MODULE MCFitSession ----------------------------
(* Every history of sessions in one directory; the values found by fits are arbitrary. *)
EXTENDS FitSession, Json
CONSTANTS Sessions, MaxNum, Emit
VARIABLES hist
mvars == <<sesvars, hist>>
Pr == [nx |-> 1, ny |-> 1, dx |-> 0, dy |-> 0, data |-> <<<<5>>>>, valid |-> <<<<1>>>>, w |-> <<<<1>>>>, sets |-> <<>>, psf |-> NoPsf,
       pars |-> <<[fixed |-> 0, lim |-> 1, lo |-> 0, hi |-> 2, start |-> 1]>>, lin |-> 0]
MInit == SInit /\ hist = <<>>
MNext ==
  \/ Setup(Pr) /\ UNCHANGED hist
  \/ /\ num < MaxNum /\ \E s \in Sessions : Begin(s) /\ hist' = Append(hist, s)
  \/ /\ phase = "running" /\ UNCHANGED hist
     /\ IF ses.mode = "stat" THEN (IF ses.from = "orig" THEN Fit(<<1>>, 7) ELSE Fit(saved[ses.from].p, saved[ses.from].stat))
        ELSE \E v \in {0, 2} : Fit(<<v>>, v + 5)
  \/ Bootstrap /\ UNCHANGED hist
  \/ (\E t \in SUBSET Names : Write(t)) /\ UNCHANGED hist
  \/ End /\ UNCHANGED hist
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(MNext)

\* an interruption or a look at the statistic never disturbs earlier results
Finished(i) == hist[i].mode = "fit" /\ hist[i].stop = 0
BestIsFinished == files["best"] # 0 => /\ Finished(files["best"])
                                       /\ \A i \in (files["best"] + 1)..(IF phase \in {"idle", "written"} THEN num ELSE num - 1) : ~Finished(i)
IntrIsStopped == files["intr"] # 0 => hist[files["intr"]].stop = 1
OnlyAsked == \A f \in Names \ {"best", "intr"} : files[f] # 0 => f \in hist[files[f]].want /\ hist[files[f]].stop = 0
SavedIsAllowed == \A f \in {"best", "intr"} : files[f] # 0 => ParsOK(prob, saved[f].p)
StoppedKeeps == [][(phase' = "written" /\ phase # "written" /\ ses.stop = 1) => \A f \in Names \ {"intr"} : files'[f] = files[f]]_mvars
StatKeeps == [][(phase' = "written" /\ phase # "written" /\ ses.mode = "stat") => saved' = saved]_mvars
BootstrapKeeps == [][phase' = "booted" => best' = best]_mvars
Ends == [](phase = "running" => <>(phase = "idle"))
Gen == (Emit /\ phase = "idle" /\ num = MaxNum) => PrintT("@@case " \o ToJson(hist))
=============================================================================
