------------------------------- MODULE Solver -------------------------------
(* A fit as the minimisation algorithms must conduct it (solvers/): the solver sees parameters with fixed
   values or limits, evaluates the fit statistic at points of its choice, may be told to stop (SIGINT) at any
   moment, and finally hands back parameters, their statistic and a status.  Parameter values and statistics
   are integers: the harness replaces the doubles of one fit by their exact ranks (limits, starting value and
   every evaluated value are ranked together), so "inside the limits" and "identical to the start" are exact.
   q is the statistic in units of 10^-6 of its starting value; NaN is -1 in both scales. *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES fit,      \* the fit being run, or NoFit
          phase,    \* "idle", "running", "done"
          best,     \* lowest q of all evaluations made before a stop was requested (NONE if none)
          nev,      \* number of evaluations
          after,    \* evaluations since the stop was requested, -1: no stop requested
          sawNaN,
          result    \* what the solver handed back
svars == <<fit, phase, best, nev, after, sawNaN, result>>

NONE == 2000000000
NoFit == [solver |-> "none", pars |-> <<>>, f0 |-> 0, q0 |-> 0]
NoResult == [p |-> <<>>, f |-> 0, q |-> 0, rep |-> 0, status |-> 0]

SInit == /\ fit = NoFit /\ phase = "idle" /\ best = NONE /\ nev = 0 /\ after = -1 /\ sawNaN = FALSE /\ result = NoResult

NFree(ft) == Cardinality({i \in DOMAIN ft.pars : ft.pars[i].fixed = 0})

(* The one rule about parameters: a fixed one never moves, a limited one never leaves its limits. *)
ParAllowed(par, v) ==
  IF par.fixed = 1 THEN v = par.start
  ELSE IF par.lim = 1 THEN par.lo <= v /\ v <= par.hi ELSE v >= 0
Allowed(ft, p) == Len(p) = Len(ft.pars) /\ \A i \in 1..Len(p) : ParAllowed(ft.pars[i], p[i])
StartOf(ft) == [i \in 1..Len(ft.pars) |-> ft.pars[i].start]

(* NLopt's PRAXIS has no notion of limits: the library itself may ask for points outside (or not-a-number),
   which it then penalises; only its results are held to the rule. *)
Bound(ft) == ft.solver # "PRAXIS"
Native(ft) == ft.solver \in {"LM", "DE", "NM"}
NeedsLimits(ft) == ft.solver = "DE" /\ \E i \in DOMAIN ft.pars : ft.pars[i].fixed = 0 /\ ft.pars[i].lim = 0

(* How many evaluations may still follow once a stop has been requested. *)
StopBound(ft) ==
  CASE ft.solver = "LM" -> NFree(ft) + 4
    [] ft.solver = "DE" -> 8 * NFree(ft)
    [] OTHER -> 4

Start(ft) == /\ phase \in {"idle", "done"}
             /\ fit' = ft /\ phase' = "running" /\ best' = NONE /\ nev' = 0 /\ after' = -1 /\ sawNaN' = FALSE
             /\ result' = NoResult

SeqMin(s, m0) == LET RECURSIVE mn(_, _)
                     mn(i, m) == IF i > Len(s) THEN m
                                 ELSE mn(i + 1, IF s[i] >= 0 /\ s[i] < m THEN s[i] ELSE m)
                 IN mn(1, m0)

(* A block of evaluations: points ps with statistics fs (ranks) and qs. *)
Evals(ps, fs, qs) ==
  /\ phase = "running" /\ ~NeedsLimits(fit)
  /\ Bound(fit) => \A k \in DOMAIN ps : Allowed(fit, ps[k])
  /\ nev' = nev + Len(ps)
  /\ sawNaN' = (sawNaN \/ \E k \in DOMAIN fs : fs[k] < 0)
  /\ IF after >= 0 THEN /\ after' = after + Len(ps) /\ after' <= StopBound(fit) /\ UNCHANGED best
     ELSE /\ best' = SeqMin(qs, best) /\ UNCHANGED after
  /\ UNCHANGED <<fit, phase, result>>

Stop == /\ phase = "running" /\ after' = (IF after < 0 THEN 0 ELSE after) /\ UNCHANGED <<fit, phase, best, nev, sawNaN, result>>

Success(ft, s) ==
  CASE ft.solver = "LM" -> s \in {1, 2, 3, 4, 6, 7, 8}
    [] ft.solver = "DE" -> s = 1
    [] OTHER -> s \in {1, 2, 3, 4}
StopStatus(ft) == IF ft.solver \in {"LM", "DE"} THEN 100 ELSE -5

Close(a, b) == a - b <= 1 /\ b - a <= 1

ResultOK(ft, r, bst, n, aft, nan) ==
  \* (NLopt's bounded NEWUOA, stopped during its first evaluations, hands back memory it never set)
  /\ (ft.solver # "NEWUOA" \/ aft < 0) => Allowed(ft, r.p)
  \* no evaluation, no result: the parameters come back untouched and the status is an error
  /\ n = 0 => (r.p = StartOf(ft) /\ r.status < 0)
  \* the statistic reported is the statistic of the parameters returned
  /\ (Success(ft, r.status) \/ (r.status > 0 /\ Native(ft))) => (r.f = -1 /\ ~Success(ft, r.status)) \/ (r.rep = -1 /\ r.f = -1) \/ Close(r.rep, r.f)
  \* an uninterrupted success never hands back something worse than what it has seen
  /\ (Success(ft, r.status) /\ ~nan) =>
       CASE ft.solver = "LM" -> r.f >= 0 /\ r.f <= ft.f0 + 1 /\ r.q <= bst + 200
         [] ft.solver \in {"PRAXIS", "COBYLA", "NEWUOA"} -> r.f >= 0
         [] OTHER -> r.f >= 0 /\ r.q <= bst + 50
  \* Levenberg-Marquardt and simplex never end above the starting value, interrupted or not
  /\ (ft.solver \in {"LM", "NM"} /\ ~nan /\ n > 0) => r.f <= ft.f0 + 1
  /\ (ft.solver = "LM" /\ ~nan /\ n > 0 /\ bst # NONE) => r.q <= bst + 200
  \* differential evolution returns the best point of the whole search, also when interrupted
  /\ (ft.solver = "DE" /\ bst # NONE) => r.q >= 0 /\ r.q <= bst
  \* a requested stop is never reported as anything but a stop or a genuine convergence
  /\ aft >= 0 => (r.status = StopStatus(ft) \/ (n = 0 /\ r.status < 0) \/ (ft.solver # "DE" /\ (Success(ft, r.status) \/ r.status <= 0)))
  /\ aft < 0 => r.status # 100
  \* a NaN statistic is never called a success by the algorithms that cannot live with it
  /\ (Success(ft, r.status) /\ ft.solver # "DE") => r.f >= 0 \/ NFree(ft) = 0

Finish(r) ==
  /\ phase = "running"
  /\ ResultOK(fit, r, best, nev, after, sawNaN)
  /\ result' = r /\ phase' = "done"
  /\ UNCHANGED <<fit, best, nev, after, sawNaN>>

(* On the smooth single-minimum objectives the optimum is known; a fit that claims success is near it. *)
Tol(ft, kind) ==
  CASE ft.solver = "LM" -> IF kind = "edge" THEN 50000 ELSE IF kind = "quartic" THEN 2000 ELSE 200
    [] ft.solver = "DE" -> 50000
    [] kind = "quartic" -> 100000
    [] ft.solver = "BOBYQA" -> 50000
    [] ft.solver \in {"COBYLA", "NEWUOA"} -> 50000
    [] OTHER -> 200000
Converged(ft, r, kind, qopt) ==
  /\ (Success(ft, r.status) /\ ft.solver # "DE") => r.q - qopt <= Tol(ft, kind)
  \* the solvers imfit implements itself do succeed on these objectives (DE may run out of generations when
  \* the statistic reaches exactly zero)
  /\ (ft.solver = "LM" /\ NFree(ft) > 0) => Success(ft, r.status)
  /\ (ft.solver = "DE" /\ ~NeedsLimits(ft) /\ NFree(ft) > 0) => r.status \in {1, 5}
  \* (a population of eight, with one free parameter, may collapse early)
  /\ (ft.solver = "DE" /\ ~NeedsLimits(ft) /\ NFree(ft) > 1 /\ ft.q0 - qopt > 500000) => r.q - qopt <= Tol(ft, kind)
  /\ (ft.solver = "NM") => Success(ft, r.status)
=============================================================================
