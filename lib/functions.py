"""The image functions of the programs: parameter lists (documentation order) and parameter generators."""

# kinds: pa angle; inc inclination; ell; c0; I intensity; J 3-D intensity; L length; l short length; n..., per function below
FUNCS = {
    "BrokenExponential": "PA:pa ell:ell I_0:I h1:L h2:s r_break:R alpha:alpha",
    "BrokenExponential2D": "PA:pa I_0:I h1:L h2:s r_break:R alpha:alpha h_z:s",
    "BrokenExponentialDisk3D": "PA:pa inc:inc J_0:J h1:L h2:s r_break:R alpha:alpha n:nz z_0:s",
    "Core-Sersic": "PA:pa ell:ell n:n I_b:i r_e:L r_b:s alpha:alpha2 gamma:gamma",
    "DattathriPeanut3D": "PA_lon:pa inc:inc barPA:pa J0_bar:J R_bar_x:L q:q q_z:q R_peanut:L A_peanut:s sigma_peanut:s c_bar_par:cb c_bar_perp:cb",
    "EdgeOnDisk": "PA:pa L_0:J h:L n:nz z_0:s",
    "EdgeOnRing": "PA:pa I_0:I r:R sigma_r:s sigma_z:s",
    "EdgeOnRing2Side": "PA:pa I_0:I r:R sigma_r_in:s sigma_r_out:L sigma_z:s",
    "Exponential": "PA:pa ell:ell I_0:I h:L",
    "ExponentialDisk3D": "PA:pa inc:inc J_0:J h:L n:nz z_0:s",
    "Exponential_GenEllipse": "PA:pa ell:ell c0:c0 I_0:I h:L",
    "FerrersBar2D": "PA:pa ell:ell c0:c0 n:n I_0:I a_bar:B",
    "FerrersBar3D": "PA:pa inc:inc barPA:pa J_0:J R_bar:B q:q q_z:q n:n",
    "FlatBar": "PA:pa ell:ell deltaPA_max:dpa I_0:I h1:L h2:B r_break:R alpha:alpha",
    "FlatSky": "I_sky:I",
    "Gaussian": "PA:pa ell:ell I_0:I sigma:L",
    "GaussianRing": "PA:pa ell:ell A:I R_ring:R sigma_r:s",
    "GaussianRing2Side": "PA:pa ell:ell A:I R_ring:R sigma_r_in:s sigma_r_out:L",
    "GaussianRing3D": "PA:pa inc:inc PA_ring:pa ell:ell J_0:J a_ring:R sigma:s h_z:s",
    "GaussianRingAz": "PA:pa ell:ell A_maj:I A_min_rel:q R_ring:R sigma_r:s",
    "ModifiedKing": "PA:pa ell:ell I_0:I r_c:s r_t:B alpha:alpha2",
    "ModifiedKing2": "PA:pa ell:ell I_0:I r_c:s c:B alpha:alpha2",
    "Moffat": "PA:pa ell:ell I_0:I fwhm:L beta:n",
    "PointSource": "I_tot:I",
    "PointSourceRot": "PA:pa I_tot:I",
    "Sersic": "PA:pa ell:ell n:n I_e:i r_e:L",
    "Sersic_GenEllipse": "PA:pa ell:ell c0:c0 n:n I_e:i r_e:L",
    "TiltedSkyPlane": "I_0:I m_x:m m_y:m",
}
PARAMS = {f: [p.split(":") for p in s.split()] for f, s in FUNCS.items()}
POINTS = ("PointSource", "PointSourceRot")
SLOW = ("DattathriPeanut3D", "FerrersBar3D", "GaussianRing3D", "BrokenExponentialDisk3D", "ExponentialDisk3D")


def value(kind, rng):
    u = rng.uniform
    if kind == "pa":
        return rng.choice([0, 30, 45, 90, 120, 180, round(u(-90, 270), 1)])
    if kind == "inc":
        return rng.choice([0, 30, 60, 90, round(u(0, 90), 1)])
    if kind == "ell":
        return rng.choice([0, 0.25, 0.5, round(u(0, .8), 2)])
    if kind == "c0":
        return rng.choice([0, -0.5, 1, round(u(-1, 2), 2)])
    if kind == "I":
        return round(u(20, 900), 1)
    if kind == "i":
        return round(u(1, 15), 2)
    if kind == "J":
        return round(u(5, 60), 1)
    if kind == "L":
        return rng.choice([1, 2, 3, round(u(0.6, 6), 2)])
    if kind == "s":
        return rng.choice([1, 0.5, round(u(0.4, 2), 2)])
    if kind == "R":
        return round(u(1.5, 6), 1)
    if kind == "B":
        return round(u(3, 9), 1)
    if kind == "n":
        return rng.choice([1, 2, 0.5, 4, round(u(.5, 4), 1)])
    if kind == "nz":
        return rng.choice([1, 2, 5, 100, 1000])
    if kind == "alpha":
        return rng.choice([1, 5, 20, round(u(.5, 10), 1)])
    if kind == "alpha2":
        return rng.choice([1, 2, 3, round(u(1, 4), 1)])
    if kind == "gamma":
        return round(u(0, .4), 2)
    if kind == "q":
        return round(u(.2, 1), 2)
    if kind == "cb":
        return round(u(1.5, 3), 1)
    if kind == "dpa":
        return rng.choice([10, 20, round(u(5, 60), 1)])
    if kind == "m":
        return round(u(-9, 9), 1)
    raise KeyError(kind)


def draw(rng, names=None, name=None):
    """A function with parameter values: (name, [(parameter, value)...])"""
    f = name or rng.choice(names or sorted(FUNCS))
    return [f, [[p, value(k, rng)] for p, k in PARAMS[f]]]


def text(fn):
    return "FUNCTION %s\n" % fn[0] + "".join("%s\t%s\n" % (p, v) for p, v in fn[1])
