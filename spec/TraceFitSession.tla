-------------------------- MODULE TraceFitSession ---------------------------
(* Recorded histories of imfit sessions against FitSession *)
EXTENDS FitSession, Json
VARIABLES c, l
Traces == ndJsonDeserialize("trace.ndjson")
Ev == Traces[c].ev[l]
IsEvent(e) == l <= Len(Traces[c].ev) /\ Ev.e = e /\ l' = l + 1 /\ c' = c
Keep == UNCHANGED sesvars
Range(q) == {q[i] : i \in DOMAIN q}
Near(a, b, t) == Abs(a - b) <= t

NFree == Cardinality(Free(prob))
(* Model images that may still be computed after a stop was requested: those of the algorithm itself, the one
   in progress, the ones needed to report and save the result. *)
StopBound == CASE ses.solver = "LM" -> NFree + 9
               [] ses.solver = "DE" -> 8 * NFree + 6
               [] OTHER -> 10
(* Ctrl-C was pressed during the session and `after` more model images were computed; without it `left` more
   would have been (before any resampling). *)
Interrupt(after, left) ==
  /\ phase = "running" /\ ses.stop = 0
  /\ \/ after <= StopBound /\ ses' = [ses EXCEPT !.stop = 1]
     \/ left <= 12 /\ (after <= 4 \/ ses.boot > 0) /\ ses' = ses          \* it came after the fit
  /\ UNCHANGED <<prob, phase, num, files, saved, best>>

ImgNear(a, b, tol(_, _)) ==
  /\ Len(a) = prob.ny /\ Len(b) = prob.ny
  /\ \A y \in 1..prob.ny : Len(a[y]) = prob.nx /\ Len(b[y]) = prob.nx /\ \A x \in 1..prob.nx : Near(a[y][x], b[y][x], tol(x, y))

\* the model image follows from the saved parameters (printed to six digits)
PredTol(x, y) == 6 + SumSeqOf(LAMBDA i : 1 + Abs(best.p[i]) \div 400000, 1, Len(best.p))
                 + (LET cs == CompsOf(prob, best.p) IN
                    SumSeqOf(LAMBDA i : IF cs[i].fn.k = "tilt" THEN 2 + Abs(x + prob.dx) + Abs(y + prob.dy) + Abs(cs[i].x) + Abs(cs[i].y) ELSE 0, 1, Len(cs)))

SumRow(r, i) == SumSeqOf(LAMBDA k : r[k][i], 1, Len(r))
BootOK ==
  /\ Len(Ev.rows) = Ev.n /\ Ev.n <= ses.boot
  /\ Ev.said = Ev.n                                    \* the number of successful iterations it reports
  /\ \A k \in 1..Len(Ev.rows) : ParsOK(prob, Ev.rows[k])
  /\ Ev.mustall = 1 => Ev.n = ses.boot
SumsOK ==   \* one free flat component: a row times the number of pixels is the sum of a resample
  \E nv \in {NValid(prob)}, D \in {Left(prob)} : \E mm \in {MinMax(prob, D)}, n \in {Len(Ev.sums)},
     tot \in {SumValid(prob, LAMBDA x, y : D[y][x])} :         \* expectation of a sum of nv draws
     /\ Ev.nv = nv /\ FlatOnly(prob)
     /\ \A k \in 1..n :
          /\ Ev.sums[k] >= nv * mm.lo - 1000 /\ Ev.sums[k] <= nv * mm.hi + 1000
          /\ (Ev.exact = 1) => Near(((Ev.sums[k] + 500) \div 1000) * 1000, Ev.sums[k], 60)
     \* as many different resamples as chance gives
     /\ (n >= 100 /\ mm.hi - mm.lo >= 5000 /\ nv >= 6) =>
          \E u \in {(mm.hi - mm.lo) \div 200 + 1}, av \in {tot \div nv} :
          \E var \in {SumValid(prob, LAMBDA x, y : ((D[y][x] - av) \div u) * ((D[y][x] - av) \div u))},   \* of a sum
             dev \in {[k \in 1..n |-> (Ev.sums[k] - tot) \div u]} :
          \E m \in {SumSeqOf(LAMBDA k : dev[k], 1, n) \div n}, v \in {SumSeqOf(LAMBDA k : (dev[k] * dev[k]) \div n, 1, n)} :
             /\ m * m <= (64 * var) \div n + 4
             /\ v * 10 >= 4 * var - n * 10 /\ v * 10 <= 20 * var + n * 10
(* The printed summary of the bootstrap values of one parameter, values counted from the best fit. *)
SummaryOK ==
  \E v \in {Ev.v}, t \in {Ev.t} : \E n \in {Len(v)} : \E m \in {SumSeqOf(LAMBDA k : v[k], 1, n) \div n} :
  \E ss \in {SumSeqOf(LAMBDA k : (v[k] - m) * (v[k] - m), 1, n)} :
     LET lo(k) == v[Max(1, Min(n, LowIdx(n) + k))]   up(k) == v[Max(1, Min(n, UpIdx(n) + k))]
         a == Max(0, Ev.sd - t - 2)  b == Ev.sd + t + 2
     IN /\ \A k \in 1..(n - 1) : v[k] <= v[k + 1]
        /\ Near(Ev.best, 0, t)
        /\ Near(Ev.mean, m, t + 1)
        /\ Ev.sd >= 0 /\ a * a <= ss \div (n - 1) + 2 /\ b * b >= ss \div (n - 1) - 2
        /\ Ev.lo >= lo(-1) - t /\ Ev.lo <= lo(1) + t /\ Ev.hi >= up(-1) - t /\ Ev.hi <= up(1) + t
        /\ Near(Ev.plus, Ev.hi - Ev.best, 2 * t + 1) /\ Near(Ev.minus, Ev.best - Ev.lo, 2 * t + 1)
        /\ Near(2 * Ev.half, Ev.hi - Ev.lo, 2 * t + 2)

TraceInit == SInit /\ c \in 1..Len(Traces) /\ l = 1
TraceNext ==
  \/  /\ IsEvent("setup") /\ Setup(Ev.pr)
  \/  /\ IsEvent("begin") /\ Begin([Ev.s EXCEPT !.want = Range(Ev.s.want)])
  \/  /\ IsEvent("interrupt") /\ Interrupt(Ev.after, Ev.left)
  \/  /\ IsEvent("fit")
      /\ (ses.from = "orig" => ParsOK(prob, Ev.p))
      /\ ((ses.mode = "stat" /\ ses.from = "orig") => (Near(Ev.stat, Ev.start, 2) /\ \A i \in DOMAIN Ev.p : Ev.p[i] = prob.pars[i].start))
      /\ (ses.mode = "stat" /\ ses.from # "orig") => (Ev.p = saved[ses.from].p /\ Near(Ev.stat, saved[ses.from].stat, Ev.tol + Abs(saved[ses.from].stat) \div 400))
      /\ (Ev.haspr = 1) => Near(Ev.stat, Ev.printed, 2)
      /\ (Ev.hasini = 1) => Near(Ev.ini, Ev.start, 2)
      /\ (ses.mode = "fit" /\ ses.solver \in {"LM", "NM"} /\ ses.from = "orig") => Ev.stat <= Ev.start + 2
      /\ Fit(Ev.p, Ev.stat)
  \/  /\ IsEvent("errors") /\ phase \in {"fitted", "booted", "written"} /\ Keep /\ ErrorsOK(prob, Ev.d, Ev.v)
  \/  /\ IsEvent("boot") /\ BootOK /\ Bootstrap
  \/  /\ IsEvent("sums") /\ Keep /\ phase = "booted" /\ SumsOK
  \/  /\ IsEvent("summary") /\ Keep /\ phase = "booted" /\ SummaryOK
  \/  /\ IsEvent("write") /\ Write(Range(Ev.touched))
  \/  /\ IsEvent("model") /\ phase = "written" /\ Keep /\ files["model"] = num
      /\ IF prob.lin = 1 THEN ImgNear(Ev.out, ModelOf(prob, best.p), PredTol)
          ELSE ImgNear(Ev.out, Ev.rebuilt, LAMBDA x, y : Ev.tol)
  \/  /\ IsEvent("resid") /\ phase = "written" /\ Keep /\ files["resid"] = num
      /\ LET M == IF Ev.hasmodel = 1 THEN Ev.model ELSE ModelOf(prob, best.p)
              t(x, y) == IF Ev.hasmodel = 1 THEN 2 + Abs(Ev.out[y][x]) \div 1000000 ELSE PredTol(x, y)
          IN /\ Len(Ev.out) = prob.ny
             /\ \A y \in 1..prob.ny : Len(Ev.out[y]) = prob.nx
                  /\ \A x \in 1..prob.nx : (prob.finite[y][x] = 1) => Near(Ev.out[y][x], 1000 * prob.data[y][x] - M[y][x], t(x, y))
      /\ (prob.lin = 1 /\ ses.mode = "fit" /\ ses.stop = 0 /\ Ev.opt = 1 /\ ses.solver # "DE" /\ Interior(prob, best.p)) => Orthogonal(prob, Ev.out, ses)
  \/  /\ IsEvent("weights") /\ phase = "written" /\ Keep /\ files["weights"] = num
      /\ (ses.stat = "chi2") => ImgNear(Ev.out, [y \in 1..prob.ny |-> [x \in 1..prob.nx |-> IF prob.valid[y][x] = 1 THEN 1000 * prob.w[y][x] ELSE 0]], LAMBDA x, y : 2)
  \/  /\ IsEvent("end") /\ End
TraceSpec == TraceInit /\ [][TraceNext]_<<sesvars, c, l>>
Report == (l = Len(Traces[c].ev) + 1) => PrintT("@@ok " \o ToString(c))
Progress == PrintT("@@at " \o ToString(l - 1))
=============================================================================
