------------------------------ MODULE Profiles ------------------------------
(* The documented surface brightness of the image functions (docs/imfit_howto.tex, "Image functions"), as natural
   logarithms in units of 10^-4.

   A function is [f, p]: its name and its parameters, in hundredths; position angles and inclinations are
   numbers of directions with rational cosine and sine (Dir).  A brightness is [l, e]: its logarithm and a bound
   on the error of the computation here, both in units of 10^-4; NOTHING means zero.  Coordinates: displacement from the
   centre in half pixels. *)
EXTENDS Fix, Sequences, FiniteSets, TLC

VARIABLES fn,       \* the function shown
          shown     \* number of images shown
pvars == <<fn, shown>>

\* <<5 cos, 5 sin>> of directions 0 .. 9
Dir == <<<<5, 0>>, <<4, 3>>, <<3, 4>>, <<0, 5>>, <<-3, 4>>, <<-4, 3>>, <<-5, 0>>, <<4, -3>>, <<0, -5>>, <<3, -4>>>>
Cos(i) == Dir[i + 1][1]
Sin(i) == Dir[i + 1][2]

Abs(a) == IF a < 0 THEN -a ELSE a
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
ZERO == -2000000                 \* logarithm of nothing at all
NOTHING == [l |-> ZERO, e |-> 0]
UNKNOWN == [l |-> 0, e |-> 9999999]
L(a) == IF a = 0 THEN ZERO ELSE Ln(a)
\* logarithm of a parameter value (hundredths)
LH(a) == Ln(a) - LN100

-----------------------------------------------------------------------------
(* Coordinates along and perpendicular to the major axis, in tenths of a pixel; the position angle is counted
   counter-clockwise from the +y axis *)
Xp(p, dx, dy) == -Sin(p.PA) * dx + Cos(p.PA) * dy
Yp(p, dx, dy) == -Cos(p.PA) * dx - Sin(p.PA) * dy

\* twentieths of the axis ratio 1 - ell
Q20(p) == (100 - p.ell) \div 5
LN10PX == 23026                  \* one pixel, in tenths
\* ln of the elliptical radius (pixels)
LnR(p, dx, dy) ==
  LET x == Xp(p, dx, dy)   y == Yp(p, dx, dy)   n == x * x * Q20(p) * Q20(p) + y * y * 400
  IN IF n = 0 THEN ZERO ELSE Half(Ln(n)) - Ln(Q20(p)) - LN10PX
\* ln of the radius of the generalised ellipse |x|^c + |y/q|^c = r^c, c = c0 + 2
LnRgen(p, dx, dy) ==
  LET x == Abs(Xp(p, dx, dy))   y == Abs(Yp(p, dx, dy))
      lx == L(x) - LN10PX        ly == IF y = 0 THEN ZERO ELSE Ln(y) - LN10PX + Ln(20) - Ln(Q20(p))
      c == p.c0 + 200            a == Max(lx, ly)  b == Min(lx, ly)
  IN IF x = 0 /\ y = 0 THEN ZERO
     ELSE IF x = 0 \/ y = 0 THEN a
     ELSE a + (Softplus(Max(-200000, ((b - a) * c) \div 100)) * 100) \div c

\* r / h in units of 10^-4 (up to 10^8) for logarithms of both
Over(lr, lh) == IF lr = ZERO THEN 0 ELSE ExpU(Min(lr - lh, 90000))
Val(l, e) == [l |-> l, e |-> e]
\* an exponent has an error proportional to itself
Err(a) == 12 + Abs(a) \div 1500

-----------------------------------------------------------------------------
(* Profiles *)
ExpProfile(li, lr, lh) == LET t == Over(lr, lh) IN Val(li - t, Err(t))
GaussProfile(li, lr, ls) == IF lr = ZERO THEN Val(li, 5) ELSE LET t == Over(2 * lr, 2 * ls) \div 2 IN Val(li - t, Err(t))

\* Ciotti & Bertin (1999) above n = 0.36, MacArthur et al. (2003) below; n in hundredths
Bn(n) ==
  IF n > 36 THEN 200 * n - 3333 + 9877 \div n + (180286 \div n) \div n + ((1140942 \div n) \div n) \div n - (((71510123 \div n) \div n) \div n) \div n
  ELSE (1945000 - 890200 * n + 109500 * n * n - (((19670 * n) * n) \div 10) * n + ((1343 * n * n) \div 100) * n * n) \div 10000
SersicTerm(lr, lre, n) == IF lr = ZERO THEN 0 ELSE ExpU(Min(90000, ((lr - lre) * 100) \div n))       \* (r / r_e)^(1/n)
BnTimes(n, t) == LET b == Bn(n)  f == t % 10000 IN b * (t \div 10000) + (b * (f \div 10)) \div 1000 + (b * (f % 10)) \div 10000
SersicProfile(li, lr, lre, n) ==
  LET t == BnTimes(n, SersicTerm(lr, lre, n)) IN Val(li + Bn(n) - t, Err(t) + Abs(t) \div 1000)

\* S I_0 e^(-r/h1) [1 + e^(alpha (r - r_b))]^((1/h1 - 1/h2) / alpha); lengths in hundredths, r in 10^-4 pixel
Scaled(r, h) == (r \div h) * 100 + ((r % h) * 100) \div h
BrokenProfile(li, r, h1, h2, rb, al) ==
  LET u == IF r - rb * 100 >= 0 THEN ((r - rb * 100) \div 100) * al + (((r - rb * 100) % 100) * al) \div 100
           ELSE -(((rb * 100 - r) \div 100) * al + (((rb * 100 - r) % 100) * al) \div 100)
      w == (Softplus(u) - Softplus(-(rb * al)))       \* 10^-4
      d == (w * 100) \div al                          \* 10^-4 pixel
      a == Scaled(r, h1)   b == IF d >= 0 THEN Scaled(d, h1) - Scaled(d, h2) ELSE -(Scaled(-d, h1) - Scaled(-d, h2))
  IN Val(li - a + b, Err(a) + Err(Scaled(Abs(d), h1)) + Err(Scaled(Abs(d), h2)) + Abs(w) \div 3000 + 400 \div al)
\* r in 10^-4 pixel
Rpx(lr) == IF lr = ZERO THEN 0 ELSE ExpU(Min(lr, 90000))

\* sech^(2/n) (n z / (2 z0)); z in 10^-4 pixel, n and z0 in hundredths
SechTerm(z, n, z0) ==
  LET zz == Scaled(z, z0)                                     \* z / z0
      u == IF n >= 20000 THEN 0 ELSE (zz * (n \div 5)) \div 40   \* n z / (2 z0)
  IN IF n >= 20000 THEN -zz + (LN2 * 200) \div n           \* (an exponential, for large n)
     ELSE IF u > 1000000 THEN -zz + (LN2 * 200) \div n
     ELSE -((LnCosh(u) * 200) \div n)

MoffatProfile(li, lr, lf, beta) ==
  LET w == Exp(-((LN2 * 100 + 47) \div beta))                 \* 2^(-1/beta)
      la == lf - LN2 - Half(Ln(E9 - w) - Ln(w))
      s == IF lr = ZERO THEN 0 ELSE Softplus(2 * (lr - la))
      t == (s * beta) \div 100
  IN Val(li - t, Err(t) + beta \div 20)

\* rt: ln of the truncation radius
KingProfile(li, lr, lrc, lrt, al) ==
  LET c == Exp(-((Softplus(2 * (lrt - lrc)) * 100) \div al))
      v == IF lr = ZERO THEN E9 ELSE Exp(-((Softplus(2 * (lr - lrc)) * 100) \div al))
  IN IF lr >= lrt + 5 THEN NOTHING
     ELSE IF v - c < 4000000 THEN UNKNOWN
     ELSE LET t == ((Ln(v - c) - Ln(E9 - c)) * al) \div 100
          IN Val(li + t, 10 + (al * (3 + (E9 \div (v - c)))) \div 100)

FerrersProfile(li, lr, la, n) ==
  IF lr = ZERO THEN Val(li, 5)
  ELSE IF lr > la + 5 THEN NOTHING
  ELSE LET m2 == Exp(2 * (lr - la)) IN
       IF E9 - m2 < 4000000 THEN UNKNOWN
       ELSE Val(li + ((Ln(E9 - m2) - LNE9) * n) \div 100, 15 + (n * (5 + 8 * (E9 \div (E9 - m2)))) \div 100)

CoreSersicProfile(p, lr) ==
  LET lrb == LH(p.r_b)  lre == LH(p.r_e)  al == p.alpha
      \* ln of (r^alpha + r_b^alpha)^(1/alpha)
      both(lq) == LET a == (lq * al) \div 100  b == (lrb * al) \div 100
                  IN (LnSum(Max(a, b), Max(-900000, Min(a, b))) * 100) \div al
      brk == both(lrb)          cur == IF lr = ZERO THEN lrb ELSE both(lr)
      t1 == BnTimes(p.n, SersicTerm(brk, lre, p.n))
      t2 == BnTimes(p.n, SersicTerm(cur, lre, p.n))
      pw == (Softplus(Max(-900000, ((lrb - lr) * al) \div 100)) * p.gamma) \div al - (LN2 * p.gamma) \div al
  IN IF lr = ZERO THEN UNKNOWN
     ELSE Val(LH(p.I_b) + pw + t1 - t2, Err(t1) + Err(t2) + (t1 + t2) \div 1000 + p.gamma \div 5)

-----------------------------------------------------------------------------
(* Line-of-sight integrals: coordinates of the object at distance s (tenths of a pixel) behind the sky plane, in fiftieths
   of a pixel; x along the line of nodes. *)
\* steps of the sum, in tenths of a pixel
SumAlong(J(_), reach) ==
  LET RECURSIVE go(_, _)
      \* logarithms of 10^-4; sum in units of e^top / 10^5
      top == LET RECURSIVE mx(_, _)
                 mx(s, m) == IF s > reach THEN m ELSE mx(s + 1, Max(m, J(s)))
             IN mx(-reach, ZERO)
      go(s, acc) == IF s > reach THEN acc ELSE go(s + 1, acc + Exp(Max(-400000, J(s) - top)) \div 10000)
      tot == go(-reach, 0)
  IN IF top <= ZERO \/ tot = 0 THEN NOTHING ELSE Val(top + Ln(tot) - 115129 - 23026, 60 + Max(0, 34000 - top) \div 200)
\* 10^-4 pixel from fiftieths of a pixel, and the distance from squares
From50(a) == a * 200
RootLn(n2) == IF n2 = 0 THEN ZERO ELSE Half(Ln(n2)) - 39120
R50(x, y) == Rpx(RootLn(x * x + y * y))

\* position in the plane of the object
Yd(p, yp, s) == yp * Cos(p.inc) + s * Sin(p.inc)
Zd(p, yp, s) == yp * Sin(p.inc) - s * Cos(p.inc)

Disk3D(p, xp, yp) ==
  LET J(s) == LH(p.J_0) - Scaled(R50(5 * xp, Yd(p, yp, s)), p.h) + SechTerm(From50(Abs(Zd(p, yp, s))), p.n, p.z_0)
  IN SumAlong(J, 200)
BrokenDisk3D(p, xp, yp) ==
  LET J(s) == BrokenProfile(LH(p.J_0), R50(5 * xp, Yd(p, yp, s)), p.h1, p.h2, p.r_break, p.alpha).l + SechTerm(From50(Abs(Zd(p, yp, s))), p.n, p.z_0)
  IN SumAlong(J, 200)
\* the ring's major axis makes the angle PA_ring with the perpendicular to the line of nodes
Ring3D(p, xp, yp) ==
  LET \* 1/250 pixel
      xr(s) == -(5 * xp) * Sin(p.PA_ring) + Yd(p, yp, s) * Cos(p.PA_ring)
      yr(s) == -(5 * xp) * Cos(p.PA_ring) - Yd(p, yp, s) * Sin(p.PA_ring)
      \* elliptical radius in 10^-4 pixel
      r(s) == LET n == (xr(s) \div 2) * (xr(s) \div 2) * ((Q20(p) * Q20(p)) \div 4) + (yr(s) \div 2) * (yr(s) \div 2) * 100
              IN IF n = 0 THEN 0 ELSE Rpx(Half(Ln(n)) - Ln(Q20(p)) + LN2 - 48283)
      J(s) == LET d == Abs(r(s) - p.a_ring * 100) IN
              GaussProfile(LH(p.J_0), L(d) - 92103, LH(p.sigma)).l - Scaled(From50(Abs(Zd(p, yp, s))), p.h_z)
  IN SumAlong(J, p.a_ring \div 5)              \* twice the radius of the ring
\* the bar's major axis makes the angle barPA with the line of nodes
Ferrers3D(p, xp, yp) ==
  LET xb(s) == (5 * xp) * Cos(p.barPA) + Yd(p, yp, s) * Sin(p.barPA)          \* 1/250 pixel
      yb(s) == -(5 * xp) * Sin(p.barPA) + Yd(p, yp, s) * Cos(p.barPA)
      lm(a, l) == IF a = 0 THEN 0 ELSE Exp(Min(0, 2 * (Ln(Abs(a)) - 55215 - l)))
      la == LH(p.R_bar)   lb == LH(p.R_bar) + LH(p.q)   lc == LH(p.R_bar) + LH(p.q_z)
      m2(s) == LET u == lm(xb(s), la)  v == lm(yb(s), lb)  w == lm(5 * Zd(p, yp, s), lc)
               IN IF u >= E9 \/ v >= E9 \/ w >= E9 \/ (u \div 2 + v \div 2 + w \div 2) >= E9 \div 2 THEN E9 ELSE u + v + w
      J(s) == LET m == m2(s) IN IF E9 - m < 1000 THEN ZERO ELSE LH(p.J_0) + ((Ln(E9 - m) - LNE9) * p.n) \div 100
  IN IF Cardinality({s \in (-(p.R_bar \div 10))..(p.R_bar \div 10) : J(s) > ZERO}) < 14 THEN UNKNOWN     \* (grazing)
     ELSE SumAlong(J, p.R_bar \div 10 + 1)

-----------------------------------------------------------------------------
BrightnessOf(f, p, dx, dy) ==
  LET x == Xp(p, dx, dy)   y == Yp(p, dx, dy)
      X == Abs(x) * 1000   Y == Abs(y) * 1000        \* 10^-4 pixel
      G(d, sg) == GaussProfile(0, L(d) - 92103, LH(sg)).l
  IN
  CASE f = "Exponential" -> ExpProfile(LH(p.I_0), LnR(p, dx, dy), LH(p.h))
    [] f = "Exponential_GenEllipse" -> ExpProfile(LH(p.I_0), LnRgen(p, dx, dy), LH(p.h))
    [] f = "Gaussian" -> GaussProfile(LH(p.I_0), LnR(p, dx, dy), LH(p.sigma))
    [] f = "Moffat" -> MoffatProfile(LH(p.I_0), LnR(p, dx, dy), LH(p.fwhm), p.beta)
    [] f = "Sersic" -> SersicProfile(LH(p.I_e), LnR(p, dx, dy), LH(p.r_e), p.n)
    [] f = "Sersic_GenEllipse" -> SersicProfile(LH(p.I_e), LnRgen(p, dx, dy), LH(p.r_e), p.n)
    [] f = "Core-Sersic" -> CoreSersicProfile(p, LnR(p, dx, dy))
    [] f = "BrokenExponential" -> BrokenProfile(LH(p.I_0), Rpx(LnR(p, dx, dy)), p.h1, p.h2, p.r_break, p.alpha)
    [] f = "BrokenExponential2D" -> LET b == BrokenProfile(LH(p.I_0), X, p.h1, p.h2, p.r_break, p.alpha)
                                    IN Val(b.l - Scaled(Y, p.h_z), b.e + 5)
    [] f = "FerrersBar2D" -> FerrersProfile(LH(p.I_0), LnRgen(p, dx, dy), LH(p.a_bar), p.n)
    [] f = "ModifiedKing" -> KingProfile(LH(p.I_0), LnR(p, dx, dy), LH(p.r_c), LH(p.r_t), p.alpha)
    [] f = "ModifiedKing2" -> KingProfile(LH(p.I_0), LnR(p, dx, dy), LH(p.r_c), LH(p.r_c) + LH(p.c), p.alpha)
    [] f = "GaussianRing" -> LET d == Abs(Rpx(LnR(p, dx, dy)) - p.R_ring * 100)  g == G(d, p.sigma_r) IN Val(LH(p.A) + g, Err(g) + Abs(g) \div 100)
    [] f = "GaussianRing2Side" ->
         LET r == Rpx(LnR(p, dx, dy)) - p.R_ring * 100   g == G(Abs(r), IF r < 0 THEN p.sigma_r_in ELSE p.sigma_r_out)
         IN Val(LH(p.A) + g, Err(g) + Abs(g) \div 100)
    [] f = "GaussianRingAz" ->
         LET d == Abs(Rpx(LnR(p, dx, dy)) - p.R_ring * 100)  g == G(d, p.sigma_r)   n == x * x + y * y
             \* amplitude relative to that on the major axis, in 10^-4: cos 2 theta about the major axis
             c2 == ((x * x - y * y) * 10000) \div n
             am == ((100 + p.A_min_rel) * 100) \div 2 + ((100 - p.A_min_rel) * c2) \div 200
         IN IF n = 0 THEN UNKNOWN ELSE IF am < 20 THEN UNKNOWN ELSE Val(LH(p.A_maj) + Ln(am) - 92103 + g, 10 + 20000 \div am + Err(g) + Abs(g) \div 100)
    [] f = "EdgeOnDisk" -> LET t == Scaled(X, p.h)  z == SechTerm(Y, p.n, p.z_0)
                           IN Val(LN2 + LH(p.h) + LH(p.L_0) + LnBessel(t) + z, Err(t) + Err(z))
    [] f = "EdgeOnRing" ->
         LET l1 == G(Abs(Abs(x) * 1000 - p.r * 100), p.sigma_r)   l2 == G(Abs(x) * 1000 + p.r * 100, p.sigma_r)   z == G(Y, p.sigma_z)
         IN Val(LH(p.I_0) + LnSum(l1, Max(-1000000, l2)) + z, Err(l1) + Err(z))
    [] f = "EdgeOnRing2Side" ->
         LET r == Abs(x) * 1000   o == r > p.r * 100
             l1 == G(Abs(r - p.r * 100), IF o THEN p.sigma_r_out ELSE p.sigma_r_in)   l2 == G(r + p.r * 100, p.sigma_r_in)   z == G(Y, p.sigma_z)
         IN Val(LH(p.I_0) + LnSum(l1, Max(-1000000, l2)) + z, Err(l1) + Err(z))
    [] f = "FlatBar" ->      \* along the major axis a broken exponential, beyond deltaPA_max an exponential
         LET lr == LnR(p, dx, dy)   pure == ExpProfile(LH(p.I_0), lr, LH(p.h1))
         IN IF x = 0 /\ y = 0 THEN Val(LH(p.I_0), 10)
            ELSE IF y = 0 THEN BrokenProfile(LH(p.I_0), Rpx(lr), p.h1, p.h2, p.r_break, p.alpha)
            ELSE IF p.deltaPA_max < 4500 /\ Abs(y) > Abs(x) THEN pure
            ELSE UNKNOWN
    [] f = "FlatSky" -> Val(LH(p.I_sky), 1)
    [] f = "ExponentialDisk3D" -> Disk3D(p, x, y)
    [] f = "BrokenExponentialDisk3D" -> BrokenDisk3D(p, x, y)
    [] f = "GaussianRing3D" -> Ring3D(p, x, y)
    [] f = "FerrersBar3D" -> Ferrers3D(p, x, y)

\* a pixel value, as an integer in units of 10^-k counts, for a brightness b
Shows(v, k, b) ==
  IF b = UNKNOWN THEN TRUE
  ELSE LET w == b.l + k * 23026 - (k * 15) \div 100           \* ln of the expected integer
       IN IF b = NOTHING \/ w < 0 THEN v >= 0 /\ v <= 1 + (IF w < -7000 THEN 0 ELSE 1) + (IF b = NOTHING THEN 0 ELSE IF b.e > 7000 THEN 5 ELSE 0)
          ELSE v > 0 /\ Abs(Ln(v) - w) <= b.e + 4 + 12000 \div v

PInit == fn = [f |-> "none"] /\ shown = 0
\* an image of the function: pts are the pixels looked at
Show(g, x, y, k, pts, img) ==
  /\ \A i \in 1..Len(pts) : Shows(img[pts[i][2]][pts[i][1]], k, BrightnessOf(g.f, g.p, 2 * pts[i][1] - x, 2 * pts[i][2] - y))
  /\ fn' = g /\ shown' = shown + 1
=============================================================================
