---------------------------- MODULE TraceSolver -----------------------------
EXTENDS Solver, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES c, l
tvars == <<fit, phase, best, nev, after, sawNaN, result, c, l>>
Ev == Trace[c].ev
e == Ev[l]
TraceInit == SInit /\ c \in 1..Len(Trace) /\ l = 1
Is(n) == l <= Len(Ev) /\ e.e = n /\ l' = l + 1 /\ UNCHANGED c
TStart == Is("start") /\ Start([solver |-> e.solver, pars |-> e.pars, f0 |-> e.f0, q0 |-> e.q0])
TEvals == Is("evals") /\ Evals(e.p, e.f, e.q)
TStop == Is("signal") /\ Stop
TFinish == /\ Is("finish")
           /\ LET r == [p |-> e.p, f |-> e.f, q |-> e.q, rep |-> e.rep, status |-> e.status] IN
              /\ Finish(r)
              /\ e.hasopt = 1 => Converged(fit, r, e.kind, e.qopt)
              /\ (fit.solver # "DE" /\ nev > 0 /\ Success(fit, e.status)) => (Close(e.init, fit.f0))
TraceNext == TStart \/ TEvals \/ TStop \/ TFinish
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Report == (l = Len(Ev) + 1 /\ phase = "done") => PrintT("@@ok " \o ToString(c))
Progress == PrintT("@@at " \o ToString(l - 1))
=============================================================================
