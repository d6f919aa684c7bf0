----------------------------- MODULE FitSession -----------------------------
(* A user's directory over a history of imfit sessions (core/imfit_main.cpp, print_results.cpp,
   bootstrap_errors.cpp): what a fit reports, what it writes, what an interruption changes, and what the
   saved files mean to later sessions.

   Quantities: parameters in thousandths; statistics in a unit chosen per history; images in thousandths,
   data in whole counts.  A problem is [nx, ny, dx, dy, data, valid, w, sets, psf, pars, lin]: dx, dy is the
   offset of the fitted section in the full image; pars the parameters in file order (X0, Y0 of each set
   followed by the parameters of its functions).  A function is [k, np, ia]: kind, number of parameters,
   position of its amplitude. *)
EXTENDS ImageOps

VARIABLES prob,     \* the problem, fixed over the history
          phase,    \* "empty", "idle", "running", "fitted", "booted", "written"
          ses,      \* the running session
          num,      \* sessions begun so far
          files,    \* last session that wrote each file; 0: the file does not exist
          saved,    \* what the parameter files mean: parameters and statistic, per parameter file
          best      \* parameters and statistic of the running session
sesvars == <<prob, phase, ses, num, files, saved, best>>

Names == {"best", "intr", "model", "resid", "weights", "boot"}
NoSes == [mode |-> "none", solver |-> "none", stat |-> "none", boot |-> 0, want |-> {}, stop |-> 0, from |-> "orig"]
NoBest == [p |-> <<>>, stat |-> 0, known |-> 0]
SInit == /\ prob = Nothing /\ phase = "empty" /\ ses = NoSes /\ num = 0
         /\ files = [f \in Names |-> 0] /\ saved = [f \in {"best", "intr"} |-> NoBest] /\ best = NoBest

Setup(pr) == /\ phase = "empty" /\ prob' = pr /\ phase' = "idle" /\ UNCHANGED <<ses, num, files, saved, best>>

-----------------------------------------------------------------------------
(* Parameters and the image they denote *)
NPar(pr) == Len(pr.pars)
Free(pr) == {i \in 1..NPar(pr) : pr.pars[i].fixed = 0}
Abs(a) == IF a < 0 THEN -a ELSE a
ParOK(par, v) == IF par.fixed = 1 THEN v = par.start
                 ELSE par.lim = 1 => (par.lo <= v /\ v <= par.hi)
ParsOK(pr, p) == Len(p) = NPar(pr) /\ \A i \in 1..Len(p) : ParOK(pr.pars[i], p[i])

\* the components with amplitudes (in thousandths) taken from the parameter vector p
CompsOf(pr, p) ==
  LET RECURSIVE fns(_, _, _), sets(_, _)
      fns(s, k, at) == IF k > Len(s.fns) THEN <<>>
        ELSE LET f == s.fns[k] IN
             <<[x |-> s.x, y |-> s.y, fn |-> IF f.k = "tilt" THEN [k |-> f.k, a |-> p[at + 1], mx |-> p[at + 2], my |-> p[at + 3]]
                                             ELSE [k |-> f.k, a |-> p[at + f.ia], mx |-> 0, my |-> 0]]>>
             \o fns(s, k + 1, at + f.np)
      size(s) == SumSeqOf(LAMBDA k : s.fns[k].np, 1, Len(s.fns)) + 2
      sets(i, at) == IF i > Len(pr.sets) THEN <<>> ELSE fns(pr.sets[i], 1, at + 2) \o sets(i + 1, at + size(pr.sets[i]))
  IN sets(1, 0)
\* brightness (thousandths, rounded down) at pixel (x,y) of the fitted section
ValueAt(pr, cs, x, y) == GridNum(cs, 2 * (x + pr.dx), 2 * (y + pr.dy), 1, pr.psf, 0) \div GridDen(1, pr.psf)
ModelOf(pr, p) == LET cs == CompsOf(pr, p) IN [y \in 1..pr.ny |-> [x \in 1..pr.nx |-> ValueAt(pr, cs, x, y)]]
\* image of a change of parameter j by one
Basis(pr, j) == ModelOf(pr, [i \in 1..NPar(pr) |-> IF i = j THEN 1000 ELSE 0])

SumValid(pr, f(_, _)) == SumSeqOf(LAMBDA y : SumSeqOf(LAMBDA x : IF pr.valid[y][x] = 1 THEN f(x, y) ELSE 0, 1, pr.nx), 1, pr.ny)
NValid(pr) == SumValid(pr, LAMBDA x, y : 1)
RECURSIVE SqrtUp(_, _)
SqrtUp(n, r) == IF r * r >= n THEN r ELSE LET q == (r + n \div r) \div 2 + 1 IN IF q >= r * 2 THEN SqrtUp(n, r * 2) ELSE IF q * q >= n THEN q ELSE SqrtUp(n, r * 2)
RECURSIVE Newton(_, _)
Newton(n, r) == LET q == (r + n \div r) \div 2 IN IF q >= r THEN r ELSE Newton(n, q)
ISqrt(n) == IF n <= 0 THEN 0 ELSE Newton(n, SqrtUp(n, 1))
Sqrt(n) == IF n <= 0 THEN 0 ELSE SqrtUp(n, 1)

-----------------------------------------------------------------------------
(* The sessions *)
Begin(s) ==
  /\ phase = "idle" /\ ses' = s /\ num' = num + 1 /\ phase' = "running" /\ best' = NoBest
  /\ s.from \in {"best", "intr"} => files[s.from] # 0
  /\ UNCHANGED <<prob, files, saved>>

(* The fit ends (or the statistic is evaluated): p and its statistic. *)
Fit(p, st) ==
  /\ phase = "running" /\ phase' = "fitted"
  /\ best' = [p |-> p, stat |-> st, known |-> 1]
  /\ UNCHANGED <<prob, ses, num, files, saved>>

Bootstrap == /\ phase = "fitted" /\ ses.boot > 0 /\ ses.stop = 0 /\ phase' = "booted"
             /\ UNCHANGED <<prob, ses, num, files, saved, best>>

(* Exactly these files are written by a session that ended as it did. *)
ParFile(s) == IF s.mode = "stat" THEN {} ELSE IF s.stop = 1 THEN {"intr"} ELSE {"best"}
Wanted(s) == IF s.stop = 1 THEN {} ELSE s.want
Writes(s) == ParFile(s) \union Wanted(s)
Write(touched) ==
  /\ phase \in {"fitted", "booted"}
  /\ (ses.boot > 0 /\ ses.stop = 0) => phase = "booted"
  /\ touched = Writes(ses)
  /\ files' = [f \in Names |-> IF f \in touched THEN num ELSE files[f]]
  /\ saved' = [f \in DOMAIN saved |-> IF f \in touched THEN best ELSE saved[f]]
  /\ phase' = "written" /\ UNCHANGED <<prob, ses, num, best>>

End == /\ phase = "written" /\ phase' = "idle" /\ UNCHANGED <<prob, ses, num, files, saved, best>>

-----------------------------------------------------------------------------
(* What an observer must find *)
\* best-fit linear model: the weighted residual is orthogonal to every free component inside its limits
AtLimit(par, v) == par.lim = 1 /\ (v <= par.lo + 2 \/ v >= par.hi - 2)
Interior(pr, p) == \A i \in Free(pr) : ~AtLimit(pr.pars[i], p[i])
KktTol(s) == CASE s.solver = "LM" -> 30 [] OTHER -> 1500
\* r is the residual image in thousandths, chi^2 with weights w
Orthogonal(pr, r, s) ==
  \A j \in Free(pr) :
    LET B == Basis(pr, j)
        wt(x, y) == IF s.stat = "chi2" THEN pr.w[y][x] ELSE 1
        \* Poisson statistics: the residual relative to the model
        rr(x, y) == IF s.stat = "chi2" THEN r[y][x]
                    ELSE LET m == 1000 * pr.data[y][x] - r[y][x] IN IF m <= 0 THEN 0 ELSE (r[y][x] * 1000) \div m
        nn(x, y) == IF s.stat = "chi2" THEN ((B[y][x] * B[y][x]) \div 1000000) * wt(x, y)
                    ELSE LET m == 1000 * pr.data[y][x] - r[y][x] IN IF m <= 0 THEN 0 ELSE ((B[y][x] \div 10) * (B[y][x] \div 10)) \div (m \div 10 + 1)
        G == SumValid(pr, LAMBDA x, y : wt(x, y) * ((rr(x, y) * B[y][x]) \div 1000))
        A == SumValid(pr, LAMBDA x, y : wt(x, y) * (Abs(B[y][x]) \div 1000 + 1))
        N == SumValid(pr, LAMBDA x, y : nn(x, y))
    IN Abs(G) <= A + KktTol(s) * (Sqrt(N) + 1)
(* Standard errors of one or two free parameters, from the curvature of chi^2.  D[a]: derivative of the model
   image with respect to free parameter a, in a unit that makes its largest value 1000; e[a] the error of
   the parameter in the same unit, times 10^7. *)
ErrorsOK(pr, D, e) ==
  \E N \in {[a \in 1..Len(D) |-> [b \in 1..Len(D) |-> SumValid(pr, LAMBDA x, y : pr.w[y][x] * ((D[a][y][x] * D[b][y][x]) \div 10))]]} :
    LET \* 1 - (correlation)^2, in thousandths
        q == IF Len(D) = 1 THEN 1000
             ELSE IF N[1][1] < 10000 \/ N[2][2] < 10000 THEN 0
             ELSE LET u == Max(N[1][1], N[2][2]) \div 40000 + 1
                      m11 == N[1][1] \div u  m22 == N[2][2] \div u  m12 == N[1][2] \div u
                  IN IF m11 < 1000 \/ m22 < 1000 THEN 0 ELSE 1000 - (m12 * m12) \div ((m11 * m22) \div 1000)
    IN q >= 150 =>
       \A a \in 1..Len(D) : N[a][a] >= 40000 =>
          LET f == (e[a] * ISqrt(N[a][a])) \div 316         \* 10^4 / sqrt(q): sum of w D^2 is 10 N
          IN f > 0 /\ f < 40000 /\ LET g == ((f * f) \div 1000) * q IN g >= 90000000 /\ g <= 110000000

\* a bootstrap row of a model with a single free flat component (weights all equal): the mean of a resample
FlatOnly(pr) == \A j \in Free(pr) : LET B == Basis(pr, j) IN \A y \in 1..pr.ny, x \in 1..pr.nx : pr.valid[y][x] = 1 => B[y][x] = 1000
\* data left for the free component, in thousandths
Left(pr) == LET p0 == [i \in 1..NPar(pr) |-> IF pr.pars[i].fixed = 1 THEN pr.pars[i].start ELSE 0]
                M == ModelOf(pr, p0)
            IN [y \in 1..pr.ny |-> [x \in 1..pr.nx |-> 1000 * pr.data[y][x] - M[y][x]]]
MinMax(pr, D) == LET V == {D[y][x] : <<y, x>> \in {q \in (1..pr.ny) \X (1..pr.nx) : pr.valid[q[1]][q[2]] = 1}}
                 IN [lo |-> CHOOSE a \in V : \A b \in V : a <= b, hi |-> CHOOSE a \in V : \A b \in V : a >= b]

\* order statistics of a sorted sequence: the 68.3% interval
LowIdx(n) == LET k == (1587 * n + 5000) \div 10000 IN IF k < 1 THEN 1 ELSE k
UpIdx(n) == LET k == (8413 * n + 5000) \div 10000 + 1 IN IF k > n THEN n ELSE k
=============================================================================
