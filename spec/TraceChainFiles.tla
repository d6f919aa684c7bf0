--------------------------- MODULE TraceChainFiles ---------------------------
(* Histories of runs of the real imfit-mcmc *)
EXTENDS ChainRows, Json
VARIABLES c, l
Traces == ndJsonDeserialize("trace.ndjson")
Ev == Traces[c].ev[l]
TraceInit == FInit /\ c \in 1..Len(Traces) /\ l = 1 /\ model = Traces[c].model
New == Ev.rows
Base(n) == [k \in 1..n |-> files[k][Common(n)]]
\* other files are as they were; a continued file begins with what was there
Kept == Ev.othersSame = 1 /\ (Ev.e \in {"append", "appendkilled"} => Ev.prefix = 1)
\* (compared with TRUE so that TLC evaluates them as values)
Began == (NewRows(Ev.n, Ev.m, 0, 0, <<>>, New, Traces[c].table) /\ FirstRows(Ev.n, New, Ev.cells)) = TRUE
Went == TRUE = (
        /\ NewRows(Ev.n, Ev.m, Common(Ev.n) - 1, Common(Ev.n), Base(Ev.n), New, Traces[c].table)
        /\ \A k \in 1..Ev.n : (Len(New[k]) > 0 /\ Common(Ev.n) >= 1 /\ ~Reviewed(Common(Ev.n), Common(Ev.n) - 1)) => New[k][1].cr \in LastCR(Ev.n))
TraceNext == /\ l <= Len(Traces[c].ev) /\ l' = l + 1 /\ UNCHANGED <<c, model>>
             /\ CASE Ev.e = "fresh" -> Ev.rc = 0 /\ Fresh(Ev.n, Ev.m, New) /\ Began /\ Kept
                  [] Ev.e = "freshkilled" -> FreshKilled(Ev.n, Ev.m, New) /\ Began /\ Kept
                  [] Ev.e = "append" -> Ev.rc = 0 /\ Appended(Ev.n, Ev.m, New) /\ Went /\ Kept
                  [] Ev.e = "appendkilled" -> AppendKilled(Ev.n, Ev.m, New) /\ Went /\ Kept
                  [] Ev.e = "refused" -> Ev.rc # 0 /\ Ev.crash = 0 /\ Ev.othersSame = 1 /\ Refused(Ev.n)
                  [] Ev.e = "remove" -> Remove(Ev.n)
                  \* the log-likelihood of a row is minus half the fit statistic imfit reports for its parameters
                  [] Ev.e = "oracle" -> AbsR(Ev.lik2 + Ev.stat) <= Ev.tol /\ UNCHANGED files
                  \* the same seed gives the same chains
                  [] Ev.e = "twin" -> Ev.same = 1 /\ UNCHANGED files
                  [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][TraceNext]_<<files, model, c, l>>
Report == (l = Len(Traces[c].ev) + 1) => PrintT("@@ok " \o ToString(c))
Progress == PrintT("@@at " \o ToString(l - 1))
=============================================================================
