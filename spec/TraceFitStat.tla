---------------------------- MODULE TraceFitStat ----------------------------
(* Recorded imfit sessions against FitStat *)
EXTENDS FitStat, Json

VARIABLES c, l
Traces == ndJsonDeserialize("trace.ndjson")
Ev == Traces[c].ev[l]
IsEvent(e) == l <= Len(Traces[c].ev) /\ Ev.e = e /\ l' = l + 1 /\ c' = c

Abs(a) == IF a < 0 THEN -a ELSE a
Close(a, b, tol) == Abs(a - b) <= tol
\* rounding: thousandths / 10^-4 units are truncated, logarithms are rounded to 10^-4
Tol(extra) == 20 + 2 * NValid + Abs(value) \div 500000 + extra
LnTol == IF stat \in {"cash", "mlr"}
         THEN (2 * SumSeqOf(LAMBDA y : SumSeqOf(LAMBDA x : IF Valid(x, y) THEN chars.gn * (data[y][x].v + chars.sky) ELSE 0, 1, Nx), 1, Ny)) \div chars.gd
         ELSE 0
DivTrunc(a, b) == IF b < 0 THEN (-a) \div (-b) ELSE a \div b
Img(out, f(_,_), ok(_,_)) ==
  /\ Len(out) = Ny
  /\ \A y \in 1..Ny : Len(out[y]) = Nx /\ \A x \in 1..Nx : ok(x, y) => Close(f(x, y), out[y][x], 2 + Abs(f(x, y)) \div 1000000)

TraceInit == FInit /\ c \in 1..Len(Traces) /\ l = 1
Keep == UNCHANGED fvars
TraceNext ==
  \/ IsEvent("data") /\ LoadData(Ev.v)
  \/ IsEvent("mask") /\ LoadMask(Ev.m)
  \/ IsEvent("err") /\ LoadErrors(Ev.m)
  \/ IsEvent("chars") /\ SetChars(Ev.h)
  \/ IsEvent("stat") /\ ChooseStat(Ev.s)
  \/ IsEvent("final") /\ Finalise
  \/ IsEvent("refused") /\ phase = "refused" /\ Keep
  \/ IsEvent("eval") /\ Evaluate(Ev.m)
  \/ IsEvent("printed") /\ phase = "ready" /\ Keep
       /\ Close(value, Ev.stat, Tol(LnTol))
       /\ (Ev.dof # -1 => Ev.dof = Dof(Ev.k))
       /\ ((Ev.hasred = 1 /\ Dof(Ev.k) # 0) => Close(DivTrunc(Ev.stat, Dof(Ev.k)), Ev.red, 2))
       /\ (NValid - Ev.k - 1 # 0 => Close(Aic(Ev.stat, Ev.k), Ev.aic, 2))
       /\ Close(Bic(Ev.stat, Ev.k), Ev.bic, 2 + Ev.k)
  \/ IsEvent("initial") /\ phase = "ready" /\ Keep /\ Close(value, Ev.stat, Tol(LnTol))
  \/ IsEvent("modelimage") /\ phase = "ready" /\ Keep /\ Img(Ev.out, LAMBDA x, y : 1000 * ModelAt(model, x, y), LAMBDA x, y : TRUE)
  \/ IsEvent("residual") /\ phase = "ready" /\ Keep /\ Img(Ev.out, LAMBDA x, y : 1000 * ResidualAt(model, x, y), LAMBDA x, y : Finite(data[y][x]))
  \/ IsEvent("weights") /\ phase = "ready" /\ Keep
       /\ Img(Ev.out, LAMBDA x, y : IF Valid(x, y) THEN Times(1, Weight2(x, y, ModelAt(model, x, y))) \div 10 ELSE 0, LAMBDA x, y : TRUE)
TraceSpec == TraceInit /\ [][TraceNext]_<<fvars, c, l>>

Report == (l = Len(Traces[c].ev) + 1) => PrintT("@@ok " \o ToString(c))
Progress == PrintT("@@at " \o ToString(l - 1))
=============================================================================
