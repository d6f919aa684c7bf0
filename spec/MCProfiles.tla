------------------------------ MODULE MCProfiles ------------------------------
(* The documented profiles over a grid of parameter values: characteristic values and the relations between the
   functions that the documentation states; every function of the grid is a case to be replayed. *)
EXTENDS Profiles, Json
CONSTANTS Emit
VARIABLE step

PAs == 0..9
I == {2500, 30000}
Grid ==
  [Exponential |-> [PA : PAs, ell : {0, 25, 50, 80}, I_0 : I, h : {60, 250, 1000}],
   Exponential_GenEllipse |-> [PA : PAs, ell : {0, 40}, c0 : {-100, -50, 0, 100, 250}, I_0 : {30000}, h : {60, 250}],
   Gaussian |-> [PA : PAs, ell : {0, 25, 60}, I_0 : I, sigma : {70, 200, 500}],
   Moffat |-> [PA : PAs, ell : {0, 30}, I_0 : I, fwhm : {150, 400}, beta : {100, 250, 476, 1000}],
   Sersic |-> [PA : PAs, ell : {0, 45}, n : {20, 36, 37, 50, 100, 250, 400, 800}, I_e : {200, 1500}, r_e : {100, 350}],
   Sersic_GenEllipse |-> [PA : PAs, ell : {0, 30}, c0 : {-100, 0, 100}, n : {50, 100, 400}, I_e : {300}, r_e : {150, 400}],
   CoreSersic |-> [PA : PAs, ell : {0, 20}, n : {100, 400}, I_b : {2000}, r_e : {300, 800}, r_b : {50, 200}, alpha : {100, 300, 1000}, gamma : {0, 30, 80}],
   BrokenExponential |-> [PA : PAs, ell : {0, 50}, I_0 : {90000}, h1 : {200, 600}, h2 : {40, 100, 300}, r_break : {150, 350}, alpha : {100, 1000, 4000}],
   BrokenExponential2D |-> [PA : PAs, I_0 : {90000}, h1 : {200, 600}, h2 : {50, 150}, r_break : {150, 350}, alpha : {100, 4000}, h_z : {50, 150}],
   FerrersBar2D |-> [PA : PAs, ell : {0, 50}, c0 : {-50, 0, 100}, n : {50, 100, 200, 250}, I_0 : {30000}, a_bar : {300, 650}],
   ModifiedKing |-> [PA : PAs, ell : {0, 25}, I_0 : {30000}, r_c : {50, 200}, r_t : {400, 900}, alpha : {100, 200, 300}],
   ModifiedKing2 |-> [PA : PAs, ell : {0, 25}, I_0 : {30000}, r_c : {50, 200}, c : {200, 500}, alpha : {100, 200, 300}],
   GaussianRing |-> [PA : PAs, ell : {0, 30, 60}, A : I, R_ring : {200, 450}, sigma_r : {50, 150}],
   GaussianRing2Side |-> [PA : PAs, ell : {0, 30}, A : I, R_ring : {200, 450}, sigma_r_in : {50, 150}, sigma_r_out : {70, 300}],
   GaussianRingAz |-> [PA : PAs, ell : {0, 30}, A_maj : I, A_min_rel : {0, 50, 100, 150}, R_ring : {200, 450}, sigma_r : {50, 150}],
   EdgeOnDisk |-> [PA : PAs, L_0 : {5000}, h : {80, 250}, n : {100, 200, 500, 1000, 100000}, z_0 : {5, 50, 150}],
   EdgeOnRing |-> [PA : PAs, I_0 : I, r : {50, 400}, sigma_r : {50, 150}, sigma_z : {60, 200}],
   EdgeOnRing2Side |-> [PA : PAs, I_0 : {30000}, r : {50, 400}, sigma_r_in : {50, 150}, sigma_r_out : {80, 300}, sigma_z : {60, 200}],
   FlatBar |-> [PA : PAs, ell : {0, 40}, deltaPA_max : {1000, 3000}, I_0 : {30000}, h1 : {150, 500}, h2 : {60, 900}, r_break : {200, 400}, alpha : {100, 1000}],
   FlatSky |-> [I_sky : {100, 12345}],
   ExponentialDisk3D |-> [PA : PAs, inc : 0..3, J_0 : {3000}, h : {100, 180}, n : {100, 200, 100000}, z_0 : {50, 100}],
   BrokenExponentialDisk3D |-> [PA : PAs, inc : 0..3, J_0 : {3000}, h1 : {150, 300}, h2 : {80, 160}, r_break : {200, 400}, alpha : {300, 2000}, n : {100, 100000}, z_0 : {60}],
   GaussianRing3D |-> [PA : PAs, inc : 0..3, PA_ring : PAs, ell : {0, 40}, J_0 : {3000}, a_ring : {250, 400}, sigma : {50, 90}, h_z : {50}],
   FerrersBar3D |-> [PA : PAs, inc : 0..3, barPA : PAs, J_0 : {3000}, R_bar : {300, 500}, q : {50, 100}, q_z : {40, 100}, n : {100, 200}]]
NameOf(k) == IF k = "CoreSersic" THEN "Core-Sersic" ELSE k

MCInit == PInit /\ step = 0
Pick == /\ step = 0 /\ \E k \in DOMAIN Grid : \E i \in 0..9 : fn' = [f |-> k, p |-> i]
        /\ step' = 1 /\ UNCHANGED shown
Fill == /\ step = 1 /\ \E p \in Grid[fn.f] : /\ IF "PA" \in DOMAIN p THEN p.PA = fn.p ELSE fn.p = 0
                                             /\ fn' = [f |-> NameOf(fn.f), p |-> p]
        /\ step' = 2 /\ UNCHANGED shown
MCSpec == MCInit /\ [][Pick \/ Fill]_<<fn, shown, step>>

Is(names) == step = 2 /\ fn.f \in names
B(dx, dy) == BrightnessOf(fn.f, fn.p, dx, dy)
Same(a, b) == a = UNKNOWN \/ b = UNKNOWN \/ (a = NOTHING /\ b = NOTHING) \/ (a # NOTHING /\ b # NOTHING /\ Abs(a.l - b.l) <= a.e + b.e + 10)
               \/ (a # NOTHING /\ a.l < -300000) \/ (b # NOTHING /\ b.l < -300000)
Points == {<<0, 0>>, <<4, 0>>, <<0, 3>>, <<5, 7>>, <<-3, 8>>, <<-9, -2>>}
AllSame(g(_, _)) == \A q \in Points : Same(B(q[1], q[2]), g(q[1], q[2]))
\* displacement along the major axis by a hundredths of a pixel, when the grid has it
P == fn.p

\* the peak, half-maximum and scale values that name the parameters
Central ==
  /\ Is({"Exponential", "Exponential_GenEllipse", "Gaussian", "Moffat", "BrokenExponential", "BrokenExponential2D", "FerrersBar2D", "ModifiedKing", "ModifiedKing2", "FlatBar"})
       => Abs(B(0, 0).l - LH(P.I_0)) <= 20
  /\ Is({"EdgeOnDisk"}) => Abs(B(0, 0).l - LH(P.L_0) - LH(P.h) - LN2) <= 20
Scale ==
  /\ Is({"Exponential"}) => Abs(ExpProfile(0, LH(P.h), LH(P.h)).l + 10000) <= 5
  /\ Is({"Gaussian"}) => Abs(GaussProfile(0, LH(P.sigma), LH(P.sigma)).l + 5000) <= 5
  /\ Is({"Moffat"}) => Abs(MoffatProfile(0, LH(P.fwhm) - LN2, LH(P.fwhm), P.beta).l + LN2) <= 15
  /\ Is({"Sersic"}) => Abs(SersicProfile(0, LH(P.r_e), LH(P.r_e), P.n).l) <= 5
  /\ Is({"Core-Sersic"}) => Abs(CoreSersicProfile(P, LH(P.r_b)).l - LH(P.I_b)) <= 30
Related ==
  /\ Is({"Exponential_GenEllipse"}) => (P.c0 = 0 => AllSame(LAMBDA dx, dy : BrightnessOf("Exponential", P, dx, dy)))
  /\ Is({"Sersic_GenEllipse"}) => (P.c0 = 0 => AllSame(LAMBDA dx, dy : BrightnessOf("Sersic", P, dx, dy)))
  /\ Is({"ModifiedKing2"}) => AllSame(LAMBDA dx, dy : BrightnessOf("ModifiedKing", P @@ [r_t |-> (P.c * P.r_c) \div 100], dx, dy))
  /\ Is({"GaussianRing2Side"}) => (P.sigma_r_in = P.sigma_r_out => AllSame(LAMBDA dx, dy : BrightnessOf("GaussianRing", P @@ [sigma_r |-> P.sigma_r_in], dx, dy)))
  /\ Is({"GaussianRingAz"}) => (P.A_min_rel = 100 => AllSame(LAMBDA dx, dy : BrightnessOf("GaussianRing", P @@ [A |-> P.A_maj], dx, dy)))
  /\ Is({"BrokenExponential"}) => AllSame(LAMBDA dx, dy : BrightnessOf("Exponential", P @@ [h |-> P.h1], dx, dy)) \/ P.h1 # P.h2
  \* Sersic: n = 1 an exponential, n = 1/2 a Gaussian
  /\ Is({"Sersic"}) => (P.n = 100 => \A q \in Points : LET lr == LnR(P, q[1], q[2]) IN
                           Same(B(q[1], q[2]), LET b == ExpProfile(LH(P.I_e) + Bn(100), lr, LH(P.r_e) - Ln(Bn(100)) + 92103) IN [b EXCEPT !.e = @ + 30 + Abs(b.l) \div 300]))
  /\ Is({"Sersic"}) => (P.n = 50 => \A q \in Points : LET lr == LnR(P, q[1], q[2]) IN
                           Same(B(q[1], q[2]), LET b == GaussProfile(LH(P.I_e) + Bn(50), lr, LH(P.r_e) - Half(Ln(2 * Bn(50)) - 92103)) IN [b EXCEPT !.e = @ + 30 + Abs(b.l) \div 300]))
\* three-dimensional functions in the limits with closed forms: edge-on and face-on disks, face-on rings and bars
\* one position angle for each of the other parameters
Few == {(CASE fn.f = "ExponentialDisk3D" -> P.h \div 10 + P.n + P.z_0 \div 10
           [] fn.f = "BrokenExponentialDisk3D" -> P.h1 \div 10 + P.h2 \div 20 + P.r_break \div 100 + P.alpha \div 100
           [] fn.f = "GaussianRing3D" -> P.a_ring \div 50 + P.sigma \div 10 + P.ell \div 40
           [] OTHER -> P.R_bar \div 100 + P.q \div 50 + P.q_z \div 20) % 10}
Limits ==
  /\ Is({"ExponentialDisk3D"}) => ((P.inc = 3 /\ P.PA \in Few) => \A q \in {<<0, 3>>, <<5, 7>>} : Same(B(q[1], q[2]), BrightnessOf("EdgeOnDisk", P @@ [L_0 |-> P.J_0], q[1], q[2])))
  /\ Is({"ExponentialDisk3D"}) => ((P.inc = 0 /\ P.PA \in Few /\ P.n = 100) => \A q \in {<<0, 3>>, <<5, 7>>} :
        Same(B(q[1], q[2]), BrightnessOf("Exponential", [PA |-> 0, ell |-> 0, I_0 |-> (P.J_0 * P.z_0 * 4) \div 100, h |-> P.h], q[1], q[2])))
  /\ Is({"ExponentialDisk3D"}) => ((P.inc = 0 /\ P.PA \in Few /\ P.n = 100000) => \A q \in {<<0, 3>>, <<5, 7>>} :
        Same(B(q[1], q[2]), BrightnessOf("Exponential", [PA |-> 0, ell |-> 0, I_0 |-> (P.J_0 * P.z_0 * 2) \div 100, h |-> P.h], q[1], q[2])))
  /\ Is({"BrokenExponentialDisk3D"}) => ((P.inc = 0 /\ P.PA \in Few /\ P.n = 100) => \A q \in {<<0, 3>>, <<5, 7>>} :
        Same(B(q[1], q[2]), BrightnessOf("BrokenExponential", P @@ [ell |-> 0, I_0 |-> (P.J_0 * P.z_0 * 4) \div 100], q[1], q[2])))
  /\ Is({"GaussianRing3D"}) => ((P.inc = 0 /\ P.PA \in Few /\ P.PA_ring = 3) => \A q \in {<<0, 3>>, <<5, 7>>} :     \* across the line of nodes by 90 degrees: along it
        Same(B(q[1], q[2]), LET b == BrightnessOf("GaussianRing", P @@ [A |-> (P.J_0 * P.h_z * 2) \div 100, R_ring |-> P.a_ring, sigma_r |-> P.sigma], q[1], q[2])
                            IN [b EXCEPT !.e = @ + 20]))
  /\ Is({"FerrersBar3D"}) => ((P.inc = 0 /\ P.PA \in Few /\ P.barPA = 0 /\ P.n = 100) => \A q \in {<<0, 3>>, <<5, 4>>} :   \* (1 - m^2)^(3/2) times 4/3 of the half thickness
        Same(B(q[1], q[2]), BrightnessOf("FerrersBar2D", [PA |-> P.PA, ell |-> 100 - P.q, c0 |-> 0, n |-> 150, a_bar |-> P.R_bar,
                                          I_0 |-> (((P.J_0 * P.R_bar) \div 100) * P.q_z * 4) \div 300], q[1], q[2])))
\* brightness depends on the direction only through the documented position angle
Oriented == (step = 2 /\ "PA" \in DOMAIN P) => \A q \in Points : (P.PA = 0 /\ fn.f \notin {"ExponentialDisk3D", "BrokenExponentialDisk3D", "GaussianRing3D", "FerrersBar3D"}) =>
               Same(B(q[1], q[2]), BrightnessOf(fn.f, [P EXCEPT !.PA = 3], -q[2], q[1]))
Gen == (Emit /\ step = 2) => PrintT("@@case " \o ToJson(fn))
=============================================================================
