-------------------------------- MODULE Flux --------------------------------
(* The table of component fluxes of makeimage (--print-fluxes, --save-fluxes).

   A component is [f, p, label]: function, parameters (hundredths), label.  Its flux is zero for a background, the integral
   over the plane where the documentation gives one in closed form, and the sum of the pixels of its image of the estimation
   size otherwise.  Fluxes are kept as [s, l]: sign and natural logarithm (10^-4).

   The table has a row per component in the order of the configuration and a final row for the total. *)
EXTENDS Fix, Sequences, TLC

VARIABLES comps,    \* the components of the model, in order
          flux,     \* their fluxes
          table     \* rows printed
fvars == <<comps, flux, table>>

Abs(a) == IF a < 0 THEN -a ELSE a
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
LH(a) == Ln(a) - LN100
TWOPI == 18379                  \* ln 2 pi
NONE == [s |-> 0, l |-> 0]

Background(f) == f \in {"FlatSky", "TiltedSkyPlane"}
Analytic(f) == f \in {"Exponential", "Gaussian", "Sersic", "PointSource", "PointSourceRot"}

\* b_n as in Profiles
Bn(n) ==
  IF n > 36 THEN 200 * n - 3333 + 9877 \div n + (180286 \div n) \div n + ((1140942 \div n) \div n) \div n - (((71510123 \div n) \div n) \div n) \div n
  ELSE (1945000 - 890200 * n + 109500 * n * n - (((19670 * n) * n) \div 10) * n + ((1343 * n * n) \div 100) * n * n) \div 10000
RECURSIVE LnFact(_)
LnFact(k) == IF k <= 1 THEN 0 ELSE Ln(k) + LnFact(k - 1)
\* closed forms; Sersic for n a multiple of one half
LnTotal(f, p) ==
  CASE f = "Exponential" -> TWOPI + LH(p.I_0) + 2 * LH(p.h) + LH(100 - p.ell)
    [] f = "Gaussian" -> TWOPI + LH(p.I_0) + 2 * LH(p.sigma) + LH(100 - p.ell)
    [] f = "Sersic" -> TWOPI + LH(p.I_e) + 2 * LH(p.r_e) + LH(100 - p.ell) + LH(p.n) + Bn(p.n)
                       - ((Ln(Bn(p.n)) - 92103) * p.n) \div 50 + LnFact(p.n \div 50 - 1)
    [] OTHER -> LH(p.I_tot)

RECURSIVE SumSeq(_, _)
SumSeq(q, i) == IF i = 0 THEN 0 ELSE q[i] + SumSeq(q, i - 1)
RECURSIVE SumRows(_, _)
SumRows(m, i) == IF i = 0 THEN 0 ELSE SumSeq(m[i], Len(m[i])) + SumRows(m, i - 1)

\* a quantity v 10^-k
Of(v, k) == IF v = 0 THEN NONE ELSE [s |-> IF v > 0 THEN 1 ELSE -1, l |-> Ln(Abs(v)) - k * 23026 + (k * 15) \div 100]
\* the same quantity times 10^k, as an integer; l + k ln 10 < ln 2^30
At(a, k) ==
  LET y == a.l + k * 23026 - (k * 15) \div 100
      m == IF y < 80000 THEN 0 ELSE (y - 80000) \div 6931        \* e^y = e^z 2^m
      e == ExpU(Max(y, -100000) - (m * 69315) \div 10)
  IN IF a.s = 0 THEN 0 ELSE a.s * ((e \div 10000) * Pow2(m) + (((e % 10000) \div 4) * Pow2(m)) \div 2500)

FluxOf(c, k, img) ==
  IF Background(c.f) THEN NONE ELSE IF Analytic(c.f) THEN [s |-> 1, l |-> LnTotal(c.f, c.p)] ELSE Of(SumRows(img, Len(img)), k)

Close(a, b, tol) == a.s = b.s /\ (a.s = 0 \/ Abs(a.l - b.l) <= tol)

\* 2.5 log10 e^l in units of 10^-4
Mags(l) == IF l >= 0 THEN (l \div 10) * 10 + ((l \div 10) * 8574) \div 10000 + (l % 10) ELSE -((((-l) \div 10) * 10) + (((-l) \div 10) * 8574) \div 10000 + ((-l) % 10))
\* a row printed: name, label, flux <<mantissa (5 digits), exponent>>, magnitude (10^-4, or none), fraction <<v, decimals>>
RowFlux(r) == Of(r.flux[1], 4 - r.flux[2])
RowRight(r, name, label, fl, tot, zp, tol) ==
  /\ r.name = name /\ r.label = label
  /\ Close(RowFlux(r), fl, tol)
  \* a magnitude exactly when there is a zero point and light
  /\ r.mag.there = (zp.there /\ r.flux[1] > 0)
  /\ (r.mag.there => Abs(r.mag.v - (zp.v - Mags(RowFlux(r).l))) <= 5)
  /\ \/ name = "Total" /\ r.frac = <<100000, 5>>
     \/ tot.s = 0                                   \* (no light at all: no fraction)
     \/ name # "Total" /\ LET q == Of(r.frac[1], r.frac[2]) IN
          IF fl.s = 0 THEN r.frac[1] = 0
          ELSE /\ q.s = fl.s * tot.s \/ (r.frac[1] = 0 /\ fl.l - tot.l < -110000)
               /\ r.frac[1] = 0 \/ Abs(q.l - (fl.l - tot.l)) <= tol + 8 + 6000 \div Abs(r.frac[1])

-----------------------------------------------------------------------------
FInit == comps = <<>> /\ flux = <<>> /\ table = <<>>
\* a component and its image of the estimation size (units of 10^-k; empty when not needed)
Add(c, k, img) ==
  /\ table = <<>>
  /\ comps' = Append(comps, c)
  /\ flux' = Append(flux, FluxOf(c, k, img))
  /\ UNCHANGED table
\* the total at a common scale k chosen by the observer
TotalAt(k) == LET RECURSIVE go(_)
                  go(i) == IF i = 0 THEN 0 ELSE At(flux[i], k) + go(i - 1) IN go(Len(flux))
SizeAt(k) == LET RECURSIVE go(_)
                 go(i) == IF i = 0 THEN 0 ELSE Abs(At(flux[i], k)) + go(i - 1) IN go(Len(flux))
Tabulate(rows, zp, k) ==
  LET tot == TotalAt(k)   t == Of(tot, k)
      \* (what the total is uncertain by)
      slack == IF tot = 0 THEN 1000000 ELSE 8 + (SizeAt(k) \div Abs(tot)) * 12
      totOk == Len(rows) > 0 /\ LET r == rows[Len(rows)] IN
                  IF slack > 500 THEN r.name = "Total" ELSE RowRight(r, "Total", "", t, t, zp, slack)
  IN /\ comps # <<>> /\ Len(rows) = Len(comps) + 1
     /\ totOk
     /\ \A i \in 1..Len(comps) : RowRight(rows[i], comps[i].f, comps[i].label, flux[i], RowFlux(rows[Len(rows)]), zp, 12)
     /\ table' = rows
     /\ UNCHANGED <<comps, flux>>
\* anything else printed or saved with the same request shows the same table
Again(rows) == table # <<>> /\ rows = table /\ UNCHANGED fvars
\* a file that cannot be written: an orderly refusal (exit status, negative for a crash)
NoFile(status) == status > 0 /\ UNCHANGED fvars
=============================================================================
