------------------------------- MODULE MCFlux -------------------------------
(* Models of up to MaxComps components: the table and its consequences, and the closed forms against radial integrals of
   the profiles.  A model's table is computed as printed: 5 digits of flux. *)
EXTENDS Flux, Json
CONSTANTS MaxComps, Emit
VARIABLES zp, phase
P == INSTANCE Profiles WITH fn <- [f |-> "none"], shown <- 0

Pool == {[f |-> "FlatSky", p |-> [I_sky |-> 700]],
         [f |-> "Exponential", p |-> [PA |-> 2, ell |-> 25, I_0 |-> 2000, h |-> 300]],
         [f |-> "Gaussian", p |-> [PA |-> 1, ell |-> 50, I_0 |-> 90000, sigma |-> 150]],
         [f |-> "Sersic", p |-> [PA |-> 4, ell |-> 0, n |-> 200, I_e |-> 100, r_e |-> 350]],
         [f |-> "Moffat", p |-> [PA |-> 0, ell |-> 20, I_0 |-> 3000, fwhm |-> 300, beta |-> 400]]}
\* stand-in images for the functions without a closed form
Img(c) == IF Background(c.f) \/ Analytic(c.f) THEN <<>> ELSE <<<<40, 700, 40>>, <<90, 3000, 90>>>>
Labels == {"", "bulge # 2"}

Digits(v) == LET RECURSIVE cut(_, _)
                 cut(a, e) == IF a >= 100000 THEN cut(a \div 10, e + 1) ELSE IF a < 10000 THEN cut(a * 10, e - 1) ELSE <<a, e>>
             IN IF v = 0 THEN <<0, 0>> ELSE cut(v, 4)
\* integer fluxes in units of 10^-3 are exact enough here
Printed(v, tot, z, name, label) ==
  LET d == Digits(v) r == <<d[1], d[2] - 3>> IN
  [name |-> name, label |-> label, flux |-> r,
   mag |-> [there |-> z.there /\ v > 0, v |-> IF z.there /\ v > 0 THEN z.v - Mags(Of(r[1], 4 - r[2]).l) ELSE 0],
   frac |-> IF name = "Total" THEN <<100000, 5>> ELSE IF tot = 0 THEN <<0, 5>> ELSE LET u == tot \div 100 IN <<((v * 100) \div u) * 10 + (((v * 100) % u) * 10) \div u, 5>>]
Ints == [i \in 1..Len(flux) |-> At(flux[i], 3)]
Tot == SumSeq(Ints, Len(Ints))
Rows == [i \in 1..(Len(comps) + 1) |-> IF i <= Len(comps) THEN Printed(Ints[i], Tot, zp, comps[i].f, comps[i].label) ELSE Printed(Tot, Tot, zp, "Total", "")]

MCInit == FInit /\ phase = "build" /\ zp \in {[there |-> FALSE, v |-> 0], [there |-> TRUE, v |-> 251234], [there |-> TRUE, v |-> -30000]}
Grow == /\ phase = "build" /\ Len(comps) < MaxComps
        /\ \E c \in Pool : \E s \in Labels : Add([f |-> c.f, p |-> c.p, label |-> s], 0, Img(c))
        /\ UNCHANGED <<zp, phase>>
PrintIt == /\ phase = "build" /\ comps # <<>> /\ table' = Rows /\ phase' = "printed" /\ UNCHANGED <<comps, flux, zp>>
MCSpec == MCInit /\ [][Grow \/ PrintIt]_<<fvars, zp, phase>>

\* the table just computed is one the specification allows ...
Allowed(rows) ==
  LET k == 3  t == Of(Tot, k) IN
  /\ \A i \in 1..Len(comps) : RowRight(rows[i], comps[i].f, comps[i].label, flux[i], RowFlux(rows[Len(rows)]), zp, 12)
  /\ RowRight(rows[Len(rows)], "Total", "", t, t, zp, 24)
Honest == phase = "printed" => Allowed(table)
\* ... and a table with two different rows exchanged, a background counted, or a flux wrong by one per cent is not
Swap(rows, i, j) == [rows EXCEPT ![i] = rows[j], ![j] = rows[i]]
Sharp == phase = "printed" =>
  /\ \A i, j \in 1..Len(comps) : table[i] # table[j] => ~Allowed(Swap(table, i, j))
  /\ \A i \in 1..Len(comps) : ~Background(comps[i].f) => ~Allowed([table EXCEPT ![i].flux[1] = (@ * 101) \div 100])
  /\ \A i \in 1..Len(comps) : Background(comps[i].f) => ~Allowed([table EXCEPT ![i].flux = <<10000, 2>>])
FractionsAddUp == (phase = "printed" /\ Tot > 0) =>
  Abs(SumSeq([i \in 1..Len(comps) |-> table[i].frac[1]], Len(comps)) - 100000) <= 10
\* order does not matter for the total
TotalByParts == phase = "printed" =>
  Abs(Tot - SumSeq([i \in 1..Len(comps) |-> Ints[Len(comps) + 1 - i]], Len(comps))) = 0

\* closed forms: 2 pi Integral r I(r) dr = 2 pi Sum r^2 I(r) du for a circular component, u = ln r
RadialSum(c) ==
  LET pc == [c.p EXCEPT !.ell = 0]
      prof(u) == CASE c.f = "Exponential" -> P!ExpProfile(LH(pc.I_0), u, LH(pc.h)).l
                   [] c.f = "Gaussian" -> P!GaussProfile(LH(pc.I_0), u, LH(pc.sigma)).l
                   [] OTHER -> P!SersicProfile(LH(pc.I_e), u, LH(pc.r_e), pc.n).l
      RECURSIVE go(_, _, _)
      top == LET RECURSIVE mx(_, _)
                 mx(u, m) == IF u > 80000 THEN m ELSE mx(u + 1000, P!Max(m, 2 * u + prof(u))) IN mx(-60000, -900000)
      go(u, acc, m) == IF u > 80000 THEN acc ELSE go(u + 1000, acc + Exp(Max(-300000, Min(0, 2 * u + prof(u) - m))) \div 1000, m)
      s == LET m == top IN go(-60000, 0, m)
  IN TWOPI + top + Ln(s) - 138155 - 23026                 \* steps of 1/10
Closed == (Len(comps) = 1 /\ Analytic(comps[1].f) /\ phase = "build") => Abs(RadialSum(comps[1]) + LH(100 - comps[1].p.ell) - flux[1].l) <= 60
Gen == (Emit /\ phase = "printed") => PrintT("@@case " \o ToJson([f |-> [i \in 1..Len(comps) |-> [kind |-> comps[i].f, label |-> comps[i].label]], zp |-> zp]))
=============================================================================
