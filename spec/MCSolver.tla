------------------------------ MODULE MCSolver ------------------------------
(* Every conduct of an abstract solver on tiny problems: any evaluation order, a stop at any moment. *)
EXTENDS Solver, TLC, Json
CONSTANTS Solvers, ParSets, Objectives, MaxEvals, Emit
VARIABLES obj, seen, stopAt
mvars == <<fit, phase, best, nev, after, sawNaN, result, obj, seen, stopAt>>

Dist(a, b) == IF a > b THEN a - b ELSE b - a
SumD(p, cen) == LET RECURSIVE s(_) s(i) == IF i > Len(p) THEN 0 ELSE Dist(p[i], cen[i]) + s(i + 1) IN s(1)
\* objectives: a bowl with its centre anywhere, a plateau, a bowl with a region of undefined statistic
F(o, p) == CASE o.kind = "bowl" -> 1 + SumD(p, o.c)
             [] o.kind = "flat" -> 5
             [] o.kind = "nan" -> IF p[1] > o.c[1] THEN -1 ELSE 1 + SumD(p, o.c)
Q(f) == IF f < 0 THEN -1 ELSE f * 1000
Points(n) == [1..n -> 0..2]

MInit == SInit /\ obj = [kind |-> "none", c |-> <<>>] /\ seen = {} /\ stopAt = 0
MStart == /\ phase = "idle"
          /\ \E s \in Solvers, ps \in ParSets, o \in Objectives :
               /\ Len(o.c) = Len(ps)
               /\ obj' = o
               /\ LET p0 == [i \in 1..Len(ps) |-> ps[i].start] IN
                    Start([solver |-> s, pars |-> ps, f0 |-> F(o, p0), q0 |-> Q(F(o, p0))])
          /\ UNCHANGED <<seen, stopAt>>
\* the fit statistic is evaluated first at the start (not by differential evolution)
MEval == /\ phase = "running" /\ nev < MaxEvals
         /\ \E p \in Points(Len(fit.pars)) :
              /\ Allowed(fit, p)
              /\ (nev = 0 /\ fit.solver # "DE") => p = StartOf(fit)
              /\ Evals(<<p>>, <<F(obj, p)>>, <<Q(F(obj, p))>>)
              /\ seen' = IF after < 0 THEN seen \union {p} ELSE seen
         /\ UNCHANGED <<obj, stopAt>>
MStop == /\ phase = "running" /\ after < 0 /\ Stop /\ stopAt' = nev + 1 /\ UNCHANGED <<obj, seen>>
Statuses == {-19, -5, -2, 1, 3, 5, 100}
MFinish == /\ phase = "running"
           /\ \E p \in Points(Len(fit.pars)), s \in Statuses :
                Finish([p |-> p, f |-> F(obj, p), q |-> Q(F(obj, p)), rep |-> F(obj, p), status |-> s])
           /\ UNCHANGED <<obj, seen, stopAt>>
MNext == MStart \/ MEval \/ MStop \/ MFinish
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(MFinish) /\ WF_mvars(MEval)

Done == phase = "done"
InLimits == Done => Allowed(fit, result.p)
FixedStay == Done => \A i \in DOMAIN fit.pars : fit.pars[i].fixed = 1 => result.p[i] = fit.pars[i].start
MinSeen == LET S == {Q(F(obj, p)) : p \in seen} \ {-1} IN IF S = {} THEN NONE ELSE CHOOSE m \in S : \A k \in S : m <= k
BestIsMin == best = MinSeen
SuccessIsBest == (Done /\ Success(fit, result.status) /\ ~sawNaN /\ seen # {} /\ fit.solver \in {"LM", "DE", "NM", "BOBYQA"}) => result.q <= MinSeen + 200
NeverWorse == (Done /\ fit.solver \in {"LM", "NM"} /\ ~sawNaN /\ nev > 0) => result.f <= fit.f0 + 1
StopsSoon == after <= (IF phase = "idle" THEN 0 ELSE StopBound(fit))
StopReported == (Done /\ result.status = 100) => after >= 0
NaNNotSuccess == (Done /\ Success(fit, result.status) /\ fit.solver # "DE" /\ NFree(fit) > 0) => result.f >= 0
EveryFitEnds == [](phase = "running" => <>(phase = "done"))

Case == [solver |-> fit.solver, pars |-> fit.pars, obj |-> obj, stopAt |-> stopAt]
Gen == (Emit /\ phase = "running" /\ seen = {} /\ nev = 0 /\ stopAt = 0) => PrintT("@@case " \o ToJson(Case))
GenStop == (Emit /\ phase = "running" /\ after = 0) => PrintT("@@stop " \o ToJson(Case))
=============================================================================
