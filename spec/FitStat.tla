------------------------------- MODULE FitStat -------------------------------
(* The fit statistic of imfit: what is compared with what, and which pixels count.

   A session loads a data image, optionally a mask and an error image, sets image characteristics
   (gain, read noise, sky, ...), chooses a statistic, is finalised (accepted or refused), and then
   evaluates models.  Pixel records of data and error images: [k |-> 0] is a non-finite value,
   [k |-> 1, v |-> n] a number.  Statistics are in units of 10^-4.  *)
EXTENDS ImageOps, Ln

VARIABLES
  data,    \* rows of pixel records
  mask,    \* [has, zerobad, v]: v rows of pixel records
  err,     \* [has, type, v]: type in {"sigma", "variance", "weight"}
  chars,   \* [gn, gd, rn, nc, sky]: gain = gn/gd including exposure time and number of combined images
  stat,    \* "chi2" (data or error-image based), "chi2model", "cash", "mlr"
  phase,   \* "load", "ready", "refused"
  model,   \* [sets, psf] of the last evaluation
  value    \* its fit statistic

fvars == <<data, mask, err, chars, stat, phase, model, value>>

U == 10000
NoMask == [has |-> 0, zerobad |-> 0, v |-> <<>>]
NoErr == [has |-> 0, type |-> "sigma", v |-> <<>>]
DefaultChars == [gn |-> 1, gd |-> 1, rn |-> 0, nc |-> 1, sky |-> 0]
NoModel == [sets |-> <<>>, psf |-> NoPsf]

Ny == Len(data)
Nx == Len(data[1])
Finite(p) == p.k = 1

\* does the mask let the pixel through?  (a mask value that is not a number masks)
Unmasked(x, y) ==
  mask.has = 0 \/ LET m == mask.v[y][x] IN Finite(m) /\ (IF mask.zerobad = 1 THEN m.v >= 1 ELSE m.v <= 0)

UsesErr == err.has = 1 /\ stat \in {"chi2", "chi2model"}
\* does the supplied error value give a usable (finite) weight?
ErrUsable(x, y) ==
  LET e == err.v[y][x]
  IN Finite(e) /\ CASE err.type = "sigma" -> e.v # 0
                    [] err.type = "variance" -> e.v > 0
                    [] OTHER -> e.v >= 0
Valid(x, y) == Unmasked(x, y) /\ Finite(data[y][x]) /\ (UsesErr => ErrUsable(x, y))

\* squared weight 1/sigma^2 as a fraction [n, d]
Frac(a, b) == [n |-> a, d |-> b]
FluxWeight(f) ==    \* noise of a pixel with f counts (per unit gain), above a sky already subtracted
  LET tot == Max(0, f + chars.sky)
  IN Frac(chars.gn * chars.gn, tot * chars.gn * chars.gd + chars.nc * chars.rn * chars.rn * chars.gd * chars.gd)
Weight2(x, y, m) ==
  IF UsesErr THEN LET e == err.v[y][x].v
                  IN CASE err.type = "sigma" -> Frac(1, e * e) [] err.type = "variance" -> Frac(1, e) [] OTHER -> Frac(e, 1)
  ELSE IF stat = "chi2" THEN FluxWeight(data[y][x].v)
  ELSE IF stat = "chi2model" THEN FluxWeight(m)
  ELSE Frac(1, 1)

Times(n, f) == \* n * f in units of 10^-4
  LET a == n * f.n IN (a \div f.d) * U + ((a % f.d) * U) \div f.d

\* ln of a positive fraction, units of 10^-4
LnF(n, d) == LnTab[n] - LnTab[d]

\* contribution of one pixel with data d and model m (both in counts), units of 10^-4
Chi2Term(d, m, w) == Times((d - m) * (d - m), w)
\* effective counts are fractions over gd
CashTerm(d, m) ==
  LET D == chars.gn * (d + chars.sky)   M == chars.gn * (m + chars.sky)
  IN (2 * (M * U - (IF D = 0 THEN 0 ELSE D * LnF(M, chars.gd)))) \div chars.gd
MlrTerm(d, m) ==
  LET D == chars.gn * (d + chars.sky)   M == chars.gn * (m + chars.sky)
  IN (2 * ((M - D) * U + (IF D = 0 THEN 0 ELSE D * (LnTab[D] - LnTab[M])))) \div chars.gd
Term(x, y, m) ==
  LET d == data[y][x].v
  IN CASE stat = "cash" -> CashTerm(d, m) [] stat = "mlr" -> MlrTerm(d, m) [] OTHER -> Chi2Term(d, m, Weight2(x, y, m))

\* the (integer-valued) model image
ModelAt(mod, x, y) == GridNum(Flat(mod.sets), 2 * x, 2 * y, 1, mod.psf, 0) \div GridDen(1, mod.psf)

Pixels == {p \in (1..Nx) \X (1..Ny) : Valid(p[1], p[2])}
NValid == Cardinality(Pixels)
Statistic(mod) ==
  SumSeqOf(LAMBDA y : SumSeqOf(LAMBDA x : IF Valid(x, y) THEN Term(x, y, ModelAt(mod, x, y)) ELSE 0, 1, Nx), 1, Ny)

\* is there a valid pixel for which no weight exists?
BadWeight(x, y) ==
  Valid(x, y) /\ CASE UsesErr -> err.type = "sigma" /\ err.v[y][x].v < 0
                   [] stat = "chi2" -> FluxWeight(data[y][x].v).d = 0
                   [] OTHER -> FALSE
Refusal == NValid = 0 \/ \E x \in 1..Nx, y \in 1..Ny : BadWeight(x, y)

\* images derived from a model
ResidualAt(mod, x, y) == data[y][x].v - ModelAt(mod, x, y)
-----------------------------------------------------------------------------
FInit == /\ data = <<>> /\ mask = NoMask /\ err = NoErr /\ chars = DefaultChars /\ stat = "chi2"
         /\ phase = "load" /\ model = NoModel /\ value = 0

LoadData(d) == phase = "load" /\ data = <<>> /\ data' = d /\ UNCHANGED <<mask, err, chars, stat, phase, model, value>>
LoadMask(m) == phase = "load" /\ data # <<>> /\ mask.has = 0 /\ mask' = m /\ UNCHANGED <<data, err, chars, stat, phase, model, value>>
LoadErrors(e) == phase = "load" /\ data # <<>> /\ err.has = 0 /\ err' = e /\ UNCHANGED <<data, mask, chars, stat, phase, model, value>>
SetChars(h) == phase = "load" /\ data # <<>> /\ chars' = h /\ UNCHANGED <<data, mask, err, stat, phase, model, value>>
ChooseStat(s) == phase = "load" /\ data # <<>> /\ stat' = s /\ UNCHANGED <<data, mask, err, chars, phase, model, value>>
Finalise == /\ phase = "load" /\ data # <<>> /\ phase' = IF Refusal THEN "refused" ELSE "ready"
            /\ UNCHANGED <<data, mask, err, chars, stat, model, value>>
Evaluate(mod) == /\ phase = "ready" /\ model' = mod /\ value' = Statistic(mod)
                 /\ UNCHANGED <<data, mask, err, chars, stat, phase>>

\* what is printed along with the statistic (k free parameters, n valid pixels)
Dof(k) == NValid - k
Reduced(v, k) == v \div Dof(k)
Aic(v, k) ==
  LET t == 2 * k * (k + 1) * U   n == NValid - k - 1
  IN v + 2 * k * U + IF n = 0 THEN 0 ELSE IF n < 0 THEN -(t \div (-n)) ELSE t \div n
Bic(v, k) == v + k * LnTab[NValid]
=============================================================================
