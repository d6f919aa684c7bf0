"""Cases of spec/Solver.tla: the real solvers on analytic objectives, recorded by harness/solver_rec."""
import os, math, random, shutil
import vlib

SOLVERS = ["LM", "DE", "NM", "COBYLA", "BOBYQA", "NEWUOA", "PRAXIS", "NLNM", "SBPLX"]
BIG = 10**9


def clampf(v, par):
    if par["fixed"]:
        return par["start"]
    if par["lim"]:
        return min(max(v, par["lo"]), par["hi"])
    return v


def stat(case, p):
    """The objective: used only to place the known optimum."""
    k, a = case["kind"], case["a"]
    n = len(p)
    if k in ("bowl", "offbowl", "skew", "nan"):
        s = sum((a[2 * i + 1] * (p[i] - a[2 * i])) ** 2 for i in range(n))
        if k == "offbowl":
            s += 25
        if k == "nan":
            s = float("nan") if p[0] > a[2 * n] else s + 1
        if k == "skew":
            s += (0.7 * sum(p[i] - a[2 * i] for i in range(n))) ** 2
        return s
    if k == "quartic":
        return 1 + sum((a[2 * i + 1] * (p[i] - a[2 * i]) ** 2) ** 2 for i in range(n))
    if k == "slope":
        return sum(math.exp(a[2 * i + 1] * (p[i] - a[2 * i])) ** 2 for i in range(n))
    if k == "rosen":
        return 100 * (p[1] - p[0] ** 2) ** 2 + (1 - p[0]) ** 2
    if k == "flat":
        return 9.0
    return None


def optimum(case):
    """Lowest value of the objective inside the limits, where it is known in closed form."""
    ps, a, k = case["pars"], case["a"], case["kind"]
    n = len(ps)
    if k in ("bowl", "offbowl", "quartic"):
        return stat(case, [clampf(a[2 * i], ps[i]) for i in range(n)])
    if k == "slope":
        if any(not p["fixed"] and not p["lim"] for p in ps):
            return None
        return stat(case, [clampf(-1e9, p) for p in ps])
    if k == "skew":
        c = [a[2 * i] for i in range(n)]
        return stat(case, c) if all(clampf(v, p) == v for v, p in zip(c, ps)) else None
    if k == "rosen":
        return 0.0 if all(clampf(1.0, p) == 1.0 for p in ps) else None
    if k == "flat":
        return 9.0
    return None


def replay(case, work, i):
    d = os.path.join(work, "s%05d" % i)
    os.makedirs(d, exist_ok=True)
    sv = case["solver"]
    nlo = {"NLNM": "NM"}.get(sv, sv) if sv not in ("LM", "DE", "NM") else "none"
    lim = int(any(p["lim"] or p["fixed"] for p in case["pars"]))
    txt = "%s %s %s %d %d %d %d %d\n%d\n" % (sv if sv in ("LM", "DE", "NM") else "NLOPT", nlo, case["ftol"], case["seed"],
                                             case["lhs"], lim, case["sig"], case.get("fits", 1), len(case["pars"]))
    for p in case["pars"]:
        txt += "%r %d %d %r %r\n" % (p["start"], p["fixed"], p["lim"], p["lo"], p["hi"])
    txt += "%s %d %s\n" % (case["kind"], len(case["a"]), " ".join(repr(v) for v in case["a"]))
    with open(os.path.join(d, "in"), "w") as f:
        f.write(txt)
    rc, out, err = vlib.run(["solver_rec", "in", "out"], d, timeout=8 if sv == "PRAXIS" else 120)
    ev = []
    if rc == 124 and sv == "PRAXIS":      # NLopt's PRAXIS is randomised by the clock and may wander for minutes
        shutil.rmtree(d, ignore_errors=True)
        return None
    if rc != 0:
        ev.append({"e": "failed", "rc": rc})
        shutil.rmtree(d, ignore_errors=True)
        return {"id": i, "ev": ev, "case": case}
    fl = float.fromhex
    fits_ = []
    for line in open(os.path.join(d, "out")):
        w = line.split()
        if w[0] == "B":
            fits_.append({"ev": []})
        elif w[0] == "E":
            sig = w[-1] == "S"
            v = [fl(x) for x in w[1:len(w) - sig]]
            fits_[-1]["ev"].append((v[0], v[1:], sig))
        elif w[0] == "R":
            fits_[-1].update(status=int(w[1]), nfev=int(w[2]), rep=fl(w[3]), init=fl(w[4]), type=int(w[5]), p=[fl(x) for x in w[6:]])
        elif w[0] == "F":
            fits_[-1].update(f=fl(w[1]), f0=fl(w[2]))
    shutil.rmtree(d, ignore_errors=True)
    # NLopt's own algorithms may miss a limit by the rounding of the last bits; snap those onto the limit
    if sv not in ("LM", "DE"):
        for ft in fits_:
            for p in [e[1] for e in ft["ev"]] + [ft["p"]]:
                for j, par in enumerate(case["pars"]):
                    for b in ((par["lo"], par["hi"]) if par["lim"] else ()):
                        if abs(p[j] - b) <= 4e-15 * max(abs(b), par["hi"] - par["lo"]):
                            p[j] = b
    # exact order-preserving ranks of the doubles of each parameter
    n = len(case["pars"])
    rank = []
    for j, p in enumerate(case["pars"]):
        vals = {p["start"]}
        if p["lim"]:
            vals |= {p["lo"], p["hi"]}
        for ft in fits_:
            vals |= {e[1][j] for e in ft["ev"]} | {ft["p"][j]}
        rank.append({v: k for k, v in enumerate(sorted(v for v in vals if v == v))})
    rk = lambda p: [rank[j].get(v, -1) for j, v in enumerate(p)]
    stats = {x for ft in fits_ for x in [ft["f"], ft["f0"], ft["rep"], ft["init"]] + [e[0] for e in ft["ev"]] if x == x}
    opt = optimum(case)
    # NLopt's own simplex methods may collapse onto a limit they start from
    atlim = any(not p["fixed"] and p["lim"] and p["start"] in (p["lo"], p["hi"]) for p in case["pars"])
    # ... and LM may stop short of a minimum that lies outside the limits
    edge = any(not p["fixed"] and p["lim"] and not p["lo"] < case["a"][2 * j] < p["hi"] for j, p in enumerate(case["pars"])) \
        if len(case["a"]) >= 2 * n else False
    if opt is not None:
        stats.add(opt)
    srank, head, r = {}, None, 0
    for x in sorted(stats):
        if head is None or x > max(head, 0) * (1 + 1e-9) + 1e-13:
            r += 1
            head = x
        srank[x] = r
    sr = lambda x: srank.get(x, -1)
    f0 = fits_[0]["f0"]

    def q(x):
        if x != x:
            return -1
        if not (0 < f0 < math.inf):
            return 0 if x <= 1e-12 else BIG
        return int(min(max(x / f0, 0) * 1e6 + 0.5, BIG)) if x < math.inf else BIG
    pars = [{"fixed": p["fixed"], "lim": p["lim"], "lo": rank[j].get(p["lo"], 0) if p["lim"] else 0,
             "hi": rank[j].get(p["hi"], 0) if p["lim"] else 0, "start": rank[j][p["start"]]} for j, p in enumerate(case["pars"])]
    for ft in fits_:
        ev.append({"e": "start", "solver": sv, "pars": pars, "f0": sr(f0), "q0": q(f0)})
        blk = []

        def flush():
            if blk:
                ev.append({"e": "evals", "p": [b[0] for b in blk], "f": [b[1] for b in blk], "q": [b[2] for b in blk]})
                blk.clear()
        for f, p, sig in ft["ev"]:
            if sig or len(blk) >= 250:
                flush()
            if sig:
                ev.append({"e": "signal"})
            blk.append((rk(p), sr(f), q(f)))
        flush()
        ev.append({"e": "finish", "p": rk(ft["p"]), "f": sr(ft["f"]), "q": q(ft["f"]), "rep": sr(ft["rep"]), "status": ft["status"],
                   "init": sr(ft["init"]), "nfev": ft["nfev"], "hasopt": int(opt is not None and not (edge and sv == "LM") and case["sig"] == 0 and float(case["ftol"]) <= 1e-8
                                                                      and (sv in ("LM", "DE") or (case["kind"] != "rosen" and not atlim))), "qopt": q(opt) if opt is not None else 0,
                   "kind": "edge" if edge and case["kind"] != "quartic" else case["kind"]})
    return {"id": i, "ev": ev, "case": case}


# ---------------------------------------------------------------- random cases

def tight(rng):
    """Problems whose optimum is outside the limits, with narrow or very wide limits, several fixed parameters."""
    c = rcase(rng)
    c["kind"] = k = rng.choice(["bowl", "offbowl", "skew", "quartic", "step"])
    n = rng.randint(2, 5)
    c["pars"], c["a"] = [], []
    for _ in range(n):
        lo = rng.choice([0.0, -5.0, 2.5, 100.0, -1e4])
        w = rng.choice([1e-3, 0.1, 1.0, 20.0, 1e4])
        hi = lo + w
        f = int(rng.random() < 0.3)
        c["pars"].append({"fixed": f, "lim": 0 if f else int(c["solver"] == "DE" or rng.random() < 0.8), "lo": lo, "hi": hi,
                          "start": rng.choice([lo, hi, lo + 0.25 * w, lo + 0.5 * w, lo + 0.99 * w])})
        c["a"] += [lo + w * rng.choice([-3.0, -0.5, 0.5, 1.5, 4.0]), rng.choice([1.0, 0.3, 4.0])]
    if all(p["fixed"] for p in c["pars"]):
        c["pars"][0].update(fixed=0, lim=1)
    c["ftol"] = "1e-5"
    return c


def rcase(rng, sig=None, solver=None):
    sv = solver or rng.choice(SOLVERS)
    n = rng.randint(1, 4)
    kind = rng.choice(["bowl", "bowl", "offbowl", "skew", "rosen", "flat", "slope", "quartic", "step", "nan", "allnan", "huge"])
    if kind == "rosen":
        n = 2
    pars, a = [], []
    for i in range(n):
        lim = 1 if sv == "DE" and rng.random() < 0.97 else int(rng.random() < 0.7)
        if kind == "slope":
            lim = 1
        w = rng.choice([1.0, 3.0, 10.0, 250.0])
        lo = rng.choice([0.0, -5.0, 2.5, -0.1, 100.0])
        if kind in ("rosen", "slope"):
            lo, w = rng.choice([-2.0, 0.0, 0.5]), rng.choice([2.0, 3.0, 4.0])
        hi = lo + w
        pos = rng.choice([0, 1, 2, 2, 2, 2])
        start = lo if pos == 0 else hi if pos == 1 else lo + w * rng.choice([0.1, 0.37, 0.5, 0.83])
        pars.append({"fixed": int(rng.random() < 0.2), "lim": lim, "lo": lo, "hi": hi, "start": start})
        if pars[-1]["fixed"]:
            pars[-1]["lim"] = 0
        cen = lo + w * (rng.choice([-0.4, 0.0, 0.2, 0.5, 0.71, 1.0, 1.3]) + rng.uniform(-0.02, 0.02))
        a += [cen, rng.choice([1.0, 0.5, 3.0]) if kind != "slope" else rng.choice([0.5, 1.0])]
    if all(p["fixed"] for p in pars) and rng.random() < 0.9:
        pars[0]["fixed"], pars[0]["lim"] = 0, 1
    if kind == "nan":
        a.append(pars[0]["start"] + rng.choice([0.01, 0.3]) * (pars[0]["hi"] - pars[0]["lo"]))
    if sig is None:
        sig = 0
    else:
        sig = rng.choice([1, 2, 3, 5, 8, 13, 21, 40, 100, 333])
        if kind in ("nan", "allnan"):
            kind = "bowl"
            a = a[:2 * n]
    return {"solver": sv, "pars": pars, "kind": kind, "a": a, "ftol": rng.choice(["1e-8", "1e-8", "1e-10", "1e-5"]),
            "seed": rng.randint(1, 10**6), "lhs": int(sv == "DE" and rng.random() < 0.3), "sig": sig, "fits": rng.choice([1, 1, 1, 2])}
