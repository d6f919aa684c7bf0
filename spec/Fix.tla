-------------------------------- MODULE Fix --------------------------------
(* Logarithms, exponentials and Bessel's x K1(x) in integers.
   Logarithms are in units of 10^-4; Exp(x) is e^x for x <= 0, in units of 10^-9. *)
EXTENDS Integers, Ln

\* round(10^5 e^(-i/100)), i = 0..70
ExpTab == <<
  100000, 99005, 98020, 97045, 96079, 95123, 94176, 93239, 92312, 91393, 90484, 89583, 88692, 87810, 86936,
  86071, 85214, 84366, 83527, 82696, 81873, 81058, 80252, 79453, 78663, 77880, 77105, 76338, 75578, 74826,
  74082, 73345, 72615, 71892, 71177, 70469, 69768, 69073, 68386, 67706, 67032, 66365, 65705, 65051, 64404,
  63763, 63128, 62500, 61878, 61263, 60653, 60050, 59452, 58860, 58275, 57695, 57121, 56553, 55990, 55433,
  54881, 54335, 53794, 53259, 52729, 52205, 51685, 51171, 50662, 50158, 49659 >>
\* round(10^4 ln(x K1(x))) for x = 0, 0.02, ..., 2 and x = 2, 2.1, ..., 24
BesselNear == <<
  0, -9, -31, -62, -101, -147, -199, -257, -320, -387, -458, -534, -613, -695, -780, -869, -960, -1054, -1150,
  -1249, -1350, -1453, -1558, -1665, -1774, -1885, -1997, -2111, -2227, -2344, -2463, -2583, -2704, -2827,
  -2951, -3076, -3203, -3330, -3459, -3588, -3719, -3851, -3983, -4117, -4251, -4387, -4523, -4660, -4798,
  -4937, -5077, -5217, -5358, -5500, -5642, -5785, -5929, -6073, -6218, -6364, -6510, -6657, -6805, -6953,
  -7101, -7250, -7400, -7550, -7701, -7852, -8004, -8156, -8308, -8461, -8615, -8769, -8923, -9078, -9233,
  -9389, -9545, -9701, -9858, -10015, -10173, -10331, -10489, -10648, -10806, -10966, -11125, -11285, -11446,
  -11606, -11767, -11929, -12090, -12252, -12414, -12577, -12739 >>
BesselFar == <<
  -12739, -13557, -14381, -15212, -16048, -16889, -17735, -18586, -19441, -20300, -21164, -22031, -22901,
  -23775, -24651, -25531, -26414, -27299, -28187, -29078, -29971, -30866, -31763, -32662, -33563, -34467,
  -35372, -36279, -37187, -38097, -39009, -39923, -40838, -41754, -42671, -43590, -44511, -45432, -46355,
  -47279, -48204, -49130, -50058, -50986, -51915, -52845, -53777, -54709, -55642, -56576, -57511, -58447,
  -59383, -60321, -61259, -62198, -63137, -64077, -65019, -65960, -66903, -67846, -68789, -69734, -70679,
  -71624, -72570, -73517, -74464, -75412, -76360, -77309, -78259, -79209, -80159, -81110, -82061, -83013,
  -83965, -84918, -85871, -86825, -87779, -88734, -89689, -90644, -91599, -92556, -93512, -94469, -95426,
  -96384, -97342, -98300, -99259, -100217, -101177, -102136, -103096, -104057, -105017, -105978, -106939,
  -107901, -108863, -109825, -110787, -111750, -112713, -113676, -114639, -115603, -116567, -117531, -118496,
  -119461, -120426, -121391, -122356, -123322, -124288, -125254, -126221, -127187, -128154, -129121, -130088,
  -131056, -132024, -132992, -133960, -134928, -135897, -136865, -137834, -138803, -139773, -140742, -141712,
  -142682, -143652, -144622, -145592, -146563, -147534, -148505, -149476, -150447, -151418, -152390, -153362,
  -154334, -155306, -156278, -157250, -158223, -159195, -160168, -161141, -162114, -163087, -164061, -165034,
  -166008, -166982, -167956, -168930, -169904, -170878, -171853, -172827, -173802, -174777, -175752, -176727,
  -177702, -178678, -179653, -180629, -181605, -182580, -183556, -184532, -185509, -186485, -187461, -188438,
  -189414, -190391, -191368, -192345, -193322, -194299, -195276, -196254, -197231, -198209, -199187, -200164,
  -201142, -202120, -203098, -204076, -205055, -206033, -207011, -207990, -208969, -209947, -210926, -211905,
  -212884, -213863, -214842, -215821, -216801, -217780, -218760, -219739, -220719, -221699 >>

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
RECURSIVE Shift(_, _)
Shift(v, k) == IF v < 4096 THEN k ELSE Shift(v \div 2, k + 1)
\* natural logarithm of an integer 1 .. 2^31 - 1
Ln(v) ==
  IF v <= 4096 THEN LnTab[v]
  ELSE LET k == Shift(v, 0)   p == Pow2(k)   n == v \div p   rem == v % p
           f == IF k <= 10 THEN (rem * 1024) \div p ELSE rem \div (p \div 1024)
       IN LnTab[n] + (k * 693147 + 50) \div 100 + (10000 * f) \div (1024 * n)
Half(a) == a \div 2
E9 == 1000000000
LNE9 == 207233
LN10 == 23026
LN100 == 46052
LN2 == 6931

Exp(x) ==
  LET z == -10 * x                       \* units of 10^-5
      k == z \div 69315   f == z % 69315
      i == f \div 1000    g == f % 1000
      r == ExpTab[i + 1] * (10000 - g \div 10 + (g * g) \div 2000000)
  IN IF x > 0 THEN E9 ELSE IF k > 29 THEN 0 ELSE r \div Pow2(k)
\* e^y in units of 10^-4, y <= 10^5
ExpU(y) == IF y <= 0 THEN Exp(y) \div 100000
           ELSE LET m == (y * 10) \div 69315 + 1
                    e == Exp(y - (m * 69315 + 5) \div 10)
                IN IF m <= 10 THEN ((e \div 1000) * Pow2(m)) \div 100 ELSE (((e \div 10000) * Pow2(m)) \div 10)
\* ln(1 + e^u)
RECURSIVE Softplus(_)
Softplus(u) == IF u > 0 THEN u + Softplus(-u) ELSE IF u < -200000 THEN 0 ELSE Ln(E9 + Exp(u)) - LNE9
\* ln(e^a + e^b)
LnSum(a, b) == IF a >= b THEN a + Softplus(b - a) ELSE b + Softplus(a - b)
\* ln(e^a - e^b), a > b
LnDiff(a, b) == a + Ln(E9 - Exp(b - a)) - LNE9
LnCosh(u) == IF u < 0 THEN (-u) + Softplus(2 * u) - LN2 ELSE u + Softplus(-2 * u) - LN2
\* ln(x K1(x)), x in units of 10^-4
LnBessel(x) ==
  IF x < 20000 THEN LET i == x \div 200   r == x % 200 IN BesselNear[i + 1] + ((BesselNear[i + 2] - BesselNear[i + 1]) * r) \div 200
  ELSE IF x < 240000 THEN LET y == x - 20000   i == y \div 1000   r == y % 1000 IN BesselFar[i + 1] + ((BesselFar[i + 2] - BesselFar[i + 1]) * r) \div 1000
  ELSE BesselFar[221] - (x - 240000)
=============================================================================
