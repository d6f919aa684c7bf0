from image_common import *
import solvercase as sc

PAR = [dict(fixed=f, lim=l, lo=0, hi=2, start=s) for f, l in ((0, 1), (0, 0), (1, 0)) for s in (0, 1, 2)]


def model(c, solvers, maxev=4):
    """Model-check the conduct of a fit and return the enumerated problems."""
    ps1 = [[p] for p in PAR]
    ps2 = [[p, q] for p in PAR[:3] + PAR[4:5] for q in PAR[1:2] + PAR[7:8]]
    o1 = [{"kind": "bowl", "c": [v]} for v in (-1, 0, 1, 3)] + [{"kind": "flat", "c": [0]}, {"kind": "nan", "c": [1]}]
    o2 = [{"kind": "bowl", "c": [0, 1]}, {"kind": "bowl", "c": [3, 2]}, {"kind": "nan", "c": [1, 1]}]
    out, stops = [], []
    for nm, ps, os_, me in (("1par", ps1, o1, maxev), ("2par", ps2, o2, c.q(2, 3))):
        wrap = "---- MODULE MCrun ----\nEXTENDS MCSolver\n"
        for k, v in (("Solvers", solvers), ("ParSets", ps), ("Objectives", os_)):
            wrap += "%s_ == %s\n" % (k, tset(v))
        wrap += "====\n"
        cfg = "SPECIFICATION MSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" + "".join("  %s <- %s_\n" % (k, k) for k in ("Solvers", "ParSets", "Objectives"))
        cfg += "  MaxEvals = %d\n  Emit = TRUE\n" % me
        for i in ("InLimits", "FixedStay", "BestIsMin", "SuccessIsBest", "NeverWorse", "StopsSoon", "StopReported", "NaNNotSuccess", "Gen", "GenStop"):
            cfg += "INVARIANT %s\n" % i
        cfg += "PROPERTY EveryFitEnds\n" if nm == "1par" else ""
        r = c.model("fits-" + nm, "MCrun", cfg, files={"MCrun.tla": wrap})
        out += r.objs("case")
        stops += r.objs("stop")
    uniq = lambda xs: [json.loads(s) for s in sorted({json.dumps(x, sort_keys=True) for x in xs})]
    return uniq(out), uniq(stops)


def concrete(c, x, sig=0):
    """Ranks of the abstract problem -> doubles."""
    rng = c.rng
    pars, a = [], []
    for p, cen in zip(x["pars"], x["obj"]["c"]):
        lo, w = rng.choice([0.0, -3.0, 1.5, 40.0]), rng.choice([2.0, 9.0, 0.5])
        val = lambda k: {-1: lo - 0.7 * w, 0: lo, 1: lo + 0.45 * w, 2: lo + w, 3: lo + 1.6 * w}[k]
        pars.append({"fixed": p["fixed"], "lim": p["lim"], "lo": lo, "hi": lo + w, "start": val(p["start"])})
        # off the grid of the simplex: two points either side of the minimum must not look converged
        a += [val(cen) + w * rng.uniform(-0.02, 0.02), rng.choice([1.0, 2.0])]
    k = x["obj"]["kind"]
    if k == "bowl":
        k = rng.choice(["bowl", "offbowl", "quartic"])
    if k == "nan":
        a.append(pars[0]["start"] + 0.2)
    return {"solver": x["solver"], "pars": pars, "kind": k, "a": a, "ftol": "1e-8", "seed": rng.randint(1, 10**6),
            "lhs": int(x["solver"] == "DE" and rng.random() < 0.3), "sig": sig, "fits": 1}


def record(c, sub, cases):
    return [t for t in vlib.pmap(lambda t: sc.replay(t[1], os.path.join(c.work, sub), t[0]), list(enumerate(cases))) if t]


def conform(c, name, cases):
    def again(tr):
        return sc.replay(tr["case"], os.path.join(c.work, "again"), tr["id"])
    c.conform(name, "TraceSolver", record(c, name, cases), confirm=again)
