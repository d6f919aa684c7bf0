"""Histories of imfit sessions (spec/FitSession.tla): concretised and run with the real programs."""
import os, re, math, random, shutil, copy
import vlib, fits, imagecase as ic

FILES = {"best": "bestfit_parameters_imfit.dat", "intr": "current_parameters_imfit.dat", "model": "model.fits",
         "resid": "resid.fits", "weights": "weights.fits", "boot": "boot.dat"}
SOLV = {"LM": [], "NM": ["--nm"], "DE": ["--de"], "DELHS": ["--de-lhs"]}
BIGV = 2 * 10**9


def milli(v):
    if v != v:
        return -BIGV
    return int(math.copysign(min(abs(v) * 1000 + 0.5, BIGV), v)) if v >= 0 else -int(min(abs(v) * 1000 + 0.5, BIGV))


def num(v):
    return ("%.5f" % v).rstrip("0").rstrip(".") if abs(v) < 1e6 and abs(v) >= 1e-3 or v == 0 else "%g" % v


# ------------------------------------------------------------------ problems

LINK = ["flat", "tilt", "const", "spike", "const"]


def problem(rng, stat, lin, de, psf, single=False):
    """A random problem.  truth: amplitudes; every parameter (name, true, fixed, limits, start)."""
    tries = 0
    while True:
        tries += 1
        fx, fy = rng.randint(6, 11), rng.randint(6, 10)
        sec = rng.random() < 0.4
        x1, x2, y1, y2 = 1, fx, 1, fy
        if sec:
            x1, y1 = rng.randint(1, 3), rng.randint(1, 3)
            x2, y2 = rng.randint(x1 + 3, fx), rng.randint(y1 + 3, fy)
        nx, ny = x2 - x1 + 1, y2 - y1 + 1
        p = dict(fx=fx, fy=fy, sec=int(sec or rng.random() < 0.1), x1=x1, y1=y1, x2=x2, y2=y2, nx=nx, ny=ny, lin=int(lin), stat=stat)
        p["psf"] = ic.rpsf(rng, 5, 5) if psf else ic.NOPSF
        p["psfsum"] = rng.choice([0, 0, 1, 0.4])
        if p["psf"]["w"] and not p["psf"]["norm"]:
            p["psf"]["norm"] = 1
        lims = lambda v, lo, hi: (1, round(lo, 2), round(hi, 2)) if de or rng.random() < 0.5 else (0, 0, 0)
        sets, pars = [], []

        def add(name, true, free, lo, hi, start):
            true_s = num(true)
            lm = lims(true, lo, hi) if free else (0, 0, 0)
            st = float(true_s) if not free else round(start + rng.uniform(0.003, 0.2) * max(1, abs(hi - lo) / 400), 5)
            if lm[0]:
                st = min(max(st, lm[1]), lm[2])
            pars.append({"name": name, "true": float(true_s), "fixed": int(not free), "lim": lm[0], "lo": lm[1], "hi": lm[2], "start": st})

        pois = stat in ("cash", "mlr")
        if lin:
            ones, taken, slopes = 0, set(), set()
            for si in range(rng.choice([1, 1, 2]) if not single else 1):
                s = {"x": 2 * rng.randint(x1, x2), "y": 2 * rng.randint(y1, y2), "fns": []}
                add("X0", s["x"] / 2, False, 0, 0, 0)
                add("Y0", s["y"] / 2, False, 0, 0, 0)
                spike = 0
                for _ in range(rng.choice([1, 2]) if not single else rng.choice([1, 1, 2])):
                    k = rng.choice(["flat", "const"]) if single else rng.choice(LINK)
                    if pois and ones == 0:
                        k = rng.choice(["flat", "const"])
                    if k == "spike":
                        if spike or (s["x"], s["y"]) in taken:
                            continue
                        taken.add((s["x"], s["y"]))
                    spike += k == "spike"
                    f = {"k": k, "a": rng.randint(20, 60) if pois else rng.randint(5, 120), "mx": rng.randint(-3, 3), "my": rng.randint(-3, 3)}
                    if pois and k == "tilt":
                        f["a"], f["mx"], f["my"] = 40, rng.randint(-1, 1), rng.randint(-1, 1)
                    name, ps = ic.realise(f, rng)
                    amp = {"flat": "I_sky", "tilt": "I_0"}.get(k, "I_0")
                    free_amp = rng.random() < 0.85 and (k == "spike" or not ones)
                    if single:
                        free_amp = not ones
                        if pois and ones:
                            continue
                    if k != "spike" and free_amp:
                        ones = 1
                    f2 = {"k": k, "np": len(ps), "ia": 1 + [n for n, _ in ps].index(amp), "name": name}
                    s["fns"].append(f2)
                    for n, v in ps:
                        v = float(v)
                        fr = (n == amp and free_amp) or (n in ("m_x", "m_y") and n not in slopes and rng.random() < 0.5)
                        if fr and n in ("m_x", "m_y"):
                            slopes.add(n)
                        if n in ("m_x", "m_y"):
                            add(n, v, fr, v - 20, v + 20, v + rng.choice([-2, 1, 0.5]))
                        else:
                            add(n, v, fr, 0.01 if pois and k != "tilt" else v - 400, v + 400, v * rng.choice([0.6, 1.4, 1.0]) + rng.choice([0, 3]))
                if s["fns"]:
                    sets.append(s)
                else:
                    pars = pars[:-2]
        else:
            for si in range(rng.choice([1, 1, 2])):
                s = {"x": 2 * rng.randint(x1, x2), "y": 2 * rng.randint(y1, y2), "fns": []}
                tx, ty = s["x"] / 2 + rng.choice([-0.3, 0.2, 0.4]), s["y"] / 2 + rng.choice([-0.2, 0.3, 0])
                fr = rng.random() < 0.7
                add("X0", tx, fr, tx - 1.5, tx + 1.5, tx + rng.choice([-0.5, 0.3]))
                add("Y0", ty, fr, ty - 1.5, ty + 1.5, ty + rng.choice([-0.4, 0.5]))
                name = rng.choice(["Gaussian", "Exponential", "Moffat"])
                ps = [("PA", 20.0, 0, 180), ("ell", 0.3, 0, 0.9), ("I_0", float(rng.randint(80, 400)), 1, 2000)]
                ps += {"Gaussian": [("sigma", 1.6, 0.3, 8)], "Exponential": [("h", 1.8, 0.3, 10)], "Moffat": [("fwhm", 3.0, 0.5, 10), ("beta", 2.5, 1, 8)]}[name]
                s["fns"].append({"k": "ext", "np": len(ps), "ia": 3, "name": name})
                for n, v, lo, hi in ps:
                    free = rng.random() < (0.9 if n == "I_0" else 0.5) and n != "beta"
                    add(n, v, free, lo, hi, v * rng.choice([0.8, 1.15]))
                if si == 0:
                    s["fns"].append({"k": "flat", "np": 1, "ia": 1, "name": "FlatSky"})
                    v = float(rng.randint(15, 50))
                    add("I_sky", v, rng.random() < 0.6, 1, 500, v + 3)
                sets.append(s)
            for q in pars:
                if not q["fixed"] and q["name"] in ("I_0", "ell", "PA", "sigma", "h", "fwhm", "I_sky") and not q["lim"]:
                    lo, hi = {"I_0": (1, 2000), "ell": (0, 0.9), "PA": (-90, 270), "I_sky": (1, 500)}.get(q["name"], (0.3, 10))
                    q.update(lim=1, lo=lo, hi=hi)
        if not sets:
            continue
        if not lin and rng.random() < 0.5:
            # few free parameters: their uncertainties can be recomputed
            keep = rng.sample([i for i, q in enumerate(pars) if not q["fixed"]], min(rng.choice([1, 2, 2]), sum(1 - q["fixed"] for q in pars)))
            for i, q in enumerate(pars):
                if not q["fixed"] and i not in keep:
                    q.update(fixed=1, start=q["true"], lim=0, lo=0, hi=0)
        p["sets"], p["pars"] = sets, pars
        nfree = sum(1 - q["fixed"] for q in pars)
        if nfree == 0 or (single and nfree != 1):
            continue
        truth = render(p, rng) if tries < 300 else [[50.0] * nx for _ in range(ny)]
        if truth is None or any(v > 1500 or (pois and v < 4) or v < -800 for r in truth for v in r):
            continue
        nz = rng.choice([2, 5, 9])
        data = [[int(round(v)) + rng.randint(-nz, nz) for v in r] for r in truth]
        if pois:
            data = [[max(v, 0) for v in r] for r in data]
        p["garbage"] = rng.choice([7777, -5000])
        valid = [[1] * nx for _ in range(ny)]
        finite = [[1] * nx for _ in range(ny)]
        p["mask"] = int(rng.random() < 0.6)
        if p["mask"]:
            for y in range(ny):
                for x in range(nx):
                    if any(s["x"] == 2 * (x + x1) and s["y"] == 2 * (y + y1) and p["lin"] for s in sets):
                        continue          # every amplitude is determined by the data
                    if rng.random() < 0.15:
                        valid[y][x] = 0
                        if rng.random() < 0.5:
                            data[y][x] = p["garbage"] if not pois or p["garbage"] > 0 else 9999
                        elif rng.random() < 0.3:
                            data[y][x], finite[y][x] = 0, 0
        if sum(map(sum, valid)) < nfree + 4:
            continue
        wk = rng.randint(1, 4)
        w = [[wk if single else rng.randint(1, 4) for _ in range(nx)] for _ in range(ny)]
        p.update(data=data, valid=valid, finite=finite, w=w)
        p["hard"] = 0
        return p


def render(p, rng):
    """True model by a throw-away makeimage run (only used to make up data)."""
    import tempfile
    d = tempfile.mkdtemp(dir=p_work())
    try:
        with open(os.path.join(d, "c.dat"), "w") as f:
            f.write(cfg_text(p, "true", makeimage=True))
        a = ["makeimage", "c.dat", "-o", "o.fits", "--no-subsampling", "--max-threads", "1"] + psf(p, d)
        rc, out, err = vlib.run(a, d)
        if rc != 0:
            return None
        full = fits.read(os.path.join(d, "o.fits"))[0]
        return cut(p, full)
    finally:
        shutil.rmtree(d, ignore_errors=True)


_work = [None]


def p_work():
    os.makedirs(_work[0], exist_ok=True)
    return _work[0]


def cut(p, full):
    return [r[p["x1"] - 1:p["x2"]] for r in full[p["y1"] - 1:p["y2"]]]


def psf(p, d):
    if not p["psf"]["w"]:
        return []
    fits.write(os.path.join(d, "psf.fits"), ic.scaled(p["psf"], p["psfsum"]))
    return ["--psf", "psf.fits"]


def cfg_text(p, which="start", makeimage=False, full=False):
    t, i = [], 0
    if makeimage:
        t += ["NCOLS %d" % p["fx"], "NROWS %d" % p["fy"]]

    def line(q):
        v = q[which]
        lim = "" if makeimage else " fixed" if q["fixed"] else " %s,%s" % (num(q["lo"]), num(q["hi"])) if q["lim"] else ""
        return "%s   %s  %s" % (q["name"], repr(float(v)) if full else num(v), lim)
    for s in p["sets"]:
        t += [line(p["pars"][i]), line(p["pars"][i + 1])]
        i += 2
        for f in s["fns"]:
            t.append("FUNCTION " + f["name"])
            for _ in range(f["np"]):
                t.append(line(p["pars"][i]))
                i += 1
    return "\n".join(t) + "\n"


def inputs(p, d):
    """Write all input files, return the common arguments."""
    with open(os.path.join(d, "c.dat"), "w") as f:
        f.write(cfg_text(p))

    def full(v, fill):
        g = [[fill() for _ in range(p["fx"])] for _ in range(p["fy"])]
        for y in range(p["ny"]):
            for x in range(p["nx"]):
                g[p["y1"] - 1 + y][p["x1"] - 1 + x] = v(y, x)
        return g
    rng = random.Random(1)
    sec = "[%d:%d,%d:%d]" % (p["x1"], p["x2"], p["y1"], p["y2"]) if p["sec"] else ""
    fits.write(os.path.join(d, "data.fits"), full(lambda y, x: float(p["data"][y][x]) if p["finite"][y][x] else float("nan"), lambda: float(rng.randint(3000, 4000))))
    a = ["data.fits" + sec, "--no-subsampling"]
    if p["stat"] == "chi2":
        fits.write(os.path.join(d, "wt.fits"), full(lambda y, x: float(p["w"][y][x]), lambda: 77.0))
        a += ["--noise", "wt.fits" + sec, "--errors-are-weights"]
    elif p["stat"] == "cash":
        a += ["--cashstat"]
    else:
        a += ["--poisson-mlr"]
    if p["mask"]:
        fits.write(os.path.join(d, "mask.fits"), full(lambda y, x: 1.0 - p["valid"][y][x], lambda: 0.0))
        a += ["--mask", "mask.fits" + sec]
    return a + psf(p, d)


NUMRE = r"[-+]?(?:\d[\d.]*(?:[eE][-+]?\d+)?|nan|inf)"


def read_params(path):
    """(values, errors, statistic text, algorithm text) of a saved parameter file."""
    vals, errs, st, alg = [], [], None, ""
    for line in open(path):
        m = re.match(r"#\s+Best-fit value: (\S+)", line)
        if m:
            st = m.group(1)
        m = re.match(r"#\s+Algorithm: (.*)", line)
        if m:
            alg = m.group(1)
        if line.startswith("#") or line.startswith("FUNCTION") or not line.strip():
            continue
        w = line.split("#")[0].split()
        m = re.search(r"#\s*\+/-\s*(\S+)", line)
        if len(w) >= 2:
            vals.append(float(w[1]))
            errs.append(float(m.group(1)) if m else None)
    return vals, errs, st, alg


STATRE = r"(?:CHI-SQUARE|CASH STATISTIC|POISSON-MLR STATISTIC) = (\S+)"


def stamp(d):
    r = {}
    for f in os.listdir(d):
        st = os.stat(os.path.join(d, f))
        r[f] = (st.st_mtime_ns, st.st_ino, st.st_size)
    return r


def session(p, d, common, s, rng):
    """Run one session in directory d; returns everything observed (floats)."""
    cfg = {"orig": "c.dat"}.get(s["from"]) or FILES[s["from"]]
    a = ["imfit"] + common + ["-c", cfg, "--max-threads", "1", "--seed", str(s["seed"])]
    if s["mode"] == "stat":
        a += ["--fitstat-only"]
    else:
        a += SOLV.get(s["solver"]) if s["solver"] in SOLV else ["--nlopt", s["solver"]]
    for k in s["want"]:
        a += ["--save-" + {"resid": "residual", "boot": "bootstrap"}.get(k, k), FILES[k]]
    for k in s.get("bad", []):          # outputs which cannot be written: a warning, the others are
        a += ["--save-" + {"resid": "residual", "boot": "bootstrap"}.get(k, k), "nowhere/" + FILES[k]]
    if s["boot"]:
        a += ["--bootstrap", str(s["boot"])]
    env = {}
    if s["stop"]:
        env = {"LD_PRELOAD": os.path.join(vlib.BIN, "interrupt.so"), "INT_AT": str(s["at"]), "INT_LOG": os.path.join(d, "..", os.path.basename(d) + ".log")}
    start_p = read_params(os.path.join(d, cfg))[0] if os.path.exists(os.path.join(d, cfg)) else []
    before = stamp(d)
    rc, out, err = vlib.run(vlib.scramble(a, rng), d, env=env, timeout=100)
    after = stamp(d)
    rev = {v: k for k, v in FILES.items()}
    touched = sorted(rev.get(f, "other:" + f) for f in after if before.get(f) != after[f])
    touched += ["gone:" + f for f in before if f not in after]
    o = {"rc": rc, "out": out, "err": err[-400:], "touched": touched, "args": " ".join(a), "start_p": start_p}
    if s["stop"]:
        lg = env["INT_LOG"]
        o["sig"] = [int(x) for x in open(lg).read().split()] if os.path.exists(lg) else [0, 0, 0]
        if os.path.exists(lg):
            os.remove(lg)
        o["left"] = 0
        if o["sig"][0]:
            # how much of the same session would have followed, had it not been interrupted
            tmp = d + "_ref"
            os.makedirs(tmp, exist_ok=True)
            for f in os.listdir(d):
                if f == cfg or f not in FILES.values():
                    shutil.copy(os.path.join(d, f), os.path.join(tmp, f))
            ra = ["imfit"] + common + ["-c", cfg, "--max-threads", "1", "--seed", str(s["seed"])]
            ra += SOLV.get(s["solver"]) if s["solver"] in SOLV else ["--nlopt", s["solver"]]
            vlib.run(ra, tmp, env=dict(env, INT_AT="0"), timeout=100)
            if os.path.exists(lg):
                o["left"] = (int(open(lg).read().split()[2]) - o["sig"][1]) // 2
                os.remove(lg)
            shutil.rmtree(tmp, ignore_errors=True)
    m = re.search(STATRE, out)
    o["printed"] = float(m.group(1)) if m else None
    m = re.search(r"INITIAL (?:CHI\^2|CASH STATISTIC|POISSON-MLR STATISTIC) = (\S+)", out)
    o["ini"] = float(m.group(1)) if m else None
    for k in ("best", "intr"):
        if k in touched:
            o["file"] = read_params(os.path.join(d, FILES[k]))
    for k in ("model", "resid", "weights"):
        if k in touched:
            o[k] = fits.read(os.path.join(d, FILES[k]))[0]
    if "boot" in touched:
        o["rows"] = [[float(x) for x in line.split()] for line in open(os.path.join(d, FILES["boot"])) if line.strip() and not line.startswith("#")]
    m = re.search(r"Statistics for parameter values from bootstrap resampling \((\d+) successful", out)
    m2 = re.search(r"Not enough successful bootstrap iterations \((-?\d+)\)", out)
    o["said"] = int(m.group(1)) if m else int(m2.group(1)) if m2 else -9
    o["summary"] = []
    if m:
        tail = out[out.index("Best-fit\t\t Bootstrap"):]
        for line in tail.split("\n")[1:]:
            q = re.match(r"(\S+) = (%s)  \+(%s), -(%s)    \[(%s) -- (%s), (%s)\];  \((%s) \+/- (%s)\)" % ((NUMRE,) * 8), line)
            f = re.match(r"(\S+) = (%s)     \[fixed parameter\]" % NUMRE, line)
            if q:
                o["summary"].append([float(x) for x in q.groups()[1:]])
            elif f:
                o["summary"].append([float(f.group(2))])
            else:
                break
    free = [j for j, q in enumerate(p["pars"]) if not q["fixed"]]
    if "file" in o and len(free) <= 2 and s["solver"] == "LM" and p["stat"] == "chi2" and len(o["file"][0]) == len(p["pars"]) and rc == 0:
        o["deriv"] = derivatives(p, o["file"][0], free, d)
    if ("model" in touched) and not p["lin"]:
        src = FILES["best"] if "best" in touched else cfg
        tmp = d + "_mk"
        os.makedirs(tmp, exist_ok=True)
        shutil.copy(os.path.join(d, src), os.path.join(tmp, "c.dat"))
        ma = ["makeimage", "c.dat", "-o", "o.fits", "--no-subsampling", "--ncols", str(p["fx"]), "--nrows", str(p["fy"])] + psf(p, tmp)
        rc2, o2, e2 = vlib.run(ma, tmp)
        if rc2 == 0 and os.path.exists(os.path.join(tmp, "o.fits")):
            o["rebuilt"] = cut(p, fits.read(os.path.join(tmp, "o.fits"))[0])
        shutil.rmtree(tmp, ignore_errors=True)
    return o


def image_at(p, vals, d):
    """Model image (of the fitted section) for these parameter values, from makeimage."""
    os.makedirs(d, exist_ok=True)
    q = dict(p, pars=[dict(x, at=v) for x, v in zip(p["pars"], vals)])
    with open(os.path.join(d, "c.dat"), "w") as f:
        f.write(cfg_text(q, "at", makeimage=True, full=True))
    rc, out, err = vlib.run(["makeimage", "c.dat", "-o", "o.fits", "--no-subsampling", "--max-threads", "1"] + psf(p, d), d)
    im = cut(p, fits.read(os.path.join(d, "o.fits"))[0]) if rc == 0 else None
    shutil.rmtree(d, ignore_errors=True)
    return im


STEP = {"X0": 0.02, "Y0": 0.02, "PA": 1.0, "ell": 0.005, "beta": 0.02}


def derivatives(p, pv, free, d):
    """Numerical derivatives of the model image with respect to the free parameters."""
    r = []
    for j in free:
        h = STEP.get(p["pars"][j]["name"], 0.01 * abs(pv[j]) + 1e-3)
        a, b = (image_at(p, [v + sg * h if k == j else v for k, v in enumerate(pv)], d + "_dv") for sg in (1, -1))
        if a is None or b is None:
            return None
        r.append([[(x - y) / (2 * h) for x, y in zip(ra, rb)] for ra, rb in zip(a, b)])
    return r


def errors(p, pv, er, free, deriv):
    """The reported uncertainties against the derivatives (each in a unit of its own)."""
    if deriv is None or any(er[j] is None for j in free):
        return []
    for j in free:
        q = p["pars"][j]
        if q["lim"] and not (pv[j] > q["lo"] + 1e-3 * (q["hi"] - q["lo"]) and pv[j] < q["hi"] - 1e-3 * (q["hi"] - q["lo"])):
            return []
    D, E = [], []
    for j, im in zip(free, deriv):
        m = max(abs(v) for r in im for v in r)
        if m <= 0:
            return []
        s = 1000.0 / m
        D.append([[int(round(v * s)) for v in r] for r in im])
        e = er[j] / s                 # uncertainty of the parameter in that unit
        # printed with a limited number of digits
        prec = 0.00005 if p["pars"][j]["name"] in ("X0", "Y0") else 0.5 * 10 ** (math.floor(math.log10(er[j])) - 5) if er[j] > 0 else 0
        if er[j] > 0 and prec > 0.02 * er[j]:
            return []
        E.append(min(int(e * 1e7 + 0.5), 300000))
    return [{"e": "errors", "d": D, "v": E}]


def replay(case, work, i):
    """case: {"p": problem, "hist": [sessions]} -> trace"""
    p, hist = case["p"], case["hist"]
    d = os.path.join(work, "h%05d" % i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    rng = random.Random("%d" % i)
    obs, ev, have = [], [], set()
    # the statistic of the starting values, from a session of its own
    d0 = d + "_0"
    os.makedirs(d0, exist_ok=True)
    o0 = session(p, d0, inputs(p, d0), {"mode": "stat", "solver": "LM", "want": [], "boot": 0, "stop": 0, "from": "orig", "seed": 1}, rng)
    shutil.rmtree(d0, ignore_errors=True)
    common = inputs(p, d)
    for s in hist:
        if s["from"] != "orig" and s["from"] not in have:
            continue
        o = session(p, d, common, s, rng)
        have |= set(o["touched"])
        obs.append((s, o))
    for k in ("best", "intr"):
        if k in have:
            s = {"mode": "stat", "solver": "LM", "want": [], "boot": 0, "stop": 0, "from": k, "seed": 1}
            obs.append((s, session(p, d, common, s, rng)))
    shutil.rmtree(d, ignore_errors=True)
    big = max([abs(x) for x in [o0["printed"] or 1] + [o["printed"] or 0 for _, o in obs] + [float(o["file"][2] or 0) if "file" in o else 0 for _, o in obs] if x == x and abs(x) < 1e300] + [1.0])
    scale = min(1e6, 4e8 / big)

    def sq(v):
        v = float(v) if v is not None else float("nan")
        return -BIGV if v != v else int(max(min(v * scale, 1.5e9), -1.5e9))
    qi = lambda im: [[milli(v) if v == v and abs(v) < 1e6 else -BIGV for v in r] for r in im]
    pars = [{"fixed": q["fixed"], "lim": q["lim"], "lo": milli(q["lo"]), "hi": milli(q["hi"]), "start": milli(q["start"])} for q in p["pars"]]
    pr = {"nx": p["nx"], "ny": p["ny"], "dx": p["x1"] - 1, "dy": p["y1"] - 1, "data": p["data"], "valid": p["valid"], "finite": p["finite"],
          "w": p["w"], "lin": p["lin"], "psf": p["psf"], "pars": pars,
          "sets": [{"x": s["x"], "y": s["y"], "fns": [{"k": f["k"], "np": f["np"], "ia": f["ia"]} for f in s["fns"]]} for s in p["sets"]]}
    ev.append({"e": "setup", "pr": pr})
    free = [j for j, q in enumerate(p["pars"]) if not q["fixed"]]
    tr = {"id": i, "ev": ev, "case": case, "args": " ; ".join(o["args"] for _, o in obs), "cfg": cfg_text(p)}
    tolst = int(0.05 * scale) + 2
    for s, o in obs:
        fam = s["solver"] if s["solver"] in ("LM", "NM") else "DE" if s["solver"].startswith("DE") else "NLOPT"
        ev.append({"e": "begin", "s": {"mode": s["mode"], "solver": fam, "stat": p["stat"], "boot": s["boot"], "want": s["want"], "stop": 0, "from": s["from"]}})
        if o["rc"] != 0:
            ev.append({"e": "failed", "rc": o["rc"], "err": o["err"]})
            return tr
        if s["stop"] and o["sig"][0]:
            ev.append({"e": "interrupt", "after": (o["sig"][2] - o["sig"][1]) // 2, "left": o["left"]})
        if s["mode"] == "stat":
            pv, er, st, alg = o["start_p"], [], o["printed"], ""
        elif "file" in o:
            pv, er, st, alg = o["file"]
            st = float(st) if st is not None else None
        else:
            pv, er, st, alg = [], [], None, ""
        haspr = int(s["mode"] == "fit" and o["printed"] is not None)
        ev.append({"e": "fit", "p": [milli(v) for v in pv], "stat": sq(st), "haspr": haspr, "printed": sq(o["printed"]) if haspr else 0,
                   "hasini": int(o["ini"] is not None and s["from"] == "orig"), "ini": sq(o["ini"]) if o["ini"] is not None else 0,
                   "start": sq(o0["printed"]), "tol": tolst})
        ms = re.search(r"mpfit status = (-?\d+)", o["out"])
        lmok = ms and int(ms.group(1)) in (1, 2, 3, 4)
        opt = int(bool(lmok) if fam == "LM" else "SUCCESS" in alg)
        if len(free) <= 2 and fam == "LM" and s["mode"] == "fit" and p["stat"] == "chi2" and lmok and er and not s["stop"]:
            ev += errors(p, pv, er, free, o.get("deriv"))
        if s["boot"] and (o["said"] != -9 or "rows" in o):
            rows = o.get("rows")
            seen = rows if rows is not None else None
            if seen is not None:
                ev.append({"e": "boot", "rows": [[milli(v) for v in r] for r in seen], "n": len(seen), "said": o["said"],
                           "mustall": int(p["lin"] and p["stat"] == "chi2")})
                nv = sum(map(sum, p["valid"]))
                if case.get("single") and p["lin"] and len(free) == 1:
                    ev.append({"e": "sums", "nv": nv, "exact": int(p["stat"] == "chi2"), "sums": [milli(r[free[0]] * nv) for r in seen if len(r) > free[0]]})
                for j, sm in enumerate(o["summary"]):
                    if len(sm) < 8 or j >= len(pv) or len(seen) < 3:
                        continue
                    ref = pv[j]
                    v = sorted(r[j] - ref for r in seen)
                    mx = max(abs(x) for x in v)
                    prec = max([0.5 * 10 ** (math.floor(math.log10(abs(x))) - 5) if x else 0 for x in sm[:1] + sm[3:5] + sm[6:7] + [ref]] + [6e-5 if p["pars"][j]["name"] in ("X0", "Y0") else 0])
                    u = mx / 2000
                    if u == 0 or prec / u > 150:
                        continue
                    Q = lambda x: int(max(min(math.floor(x / u + 0.5), 10**5), -10**5))
                    best, plus, minus, lo, hi, half, mean, sd = sm
                    ev.append({"e": "summary", "v": [Q(x) for x in v], "t": int(prec / u) + 2, "best": Q(best - ref), "plus": Q(plus), "minus": Q(minus),
                               "lo": Q(lo - ref), "hi": Q(hi - ref), "half": Q(half), "mean": Q(mean - ref), "sd": Q(sd)})
            else:
                ev.append({"e": "boot", "rows": [], "n": 0, "said": 0, "mustall": 0})
        ev.append({"e": "write", "touched": [t for t in o["touched"]]})
        if "model" in o:
            e = {"e": "model", "out": qi(o["model"]), "tol": 0, "rebuilt": [], "rel": 1}
            if not p["lin"]:
                mxv = max(abs(v) for r in o["model"] for v in r) if o["model"] else 0
                e.update(rebuilt=qi(o.get("rebuilt", [[0]])), tol=3 + int(mxv * 1000 / 3000))
            ev.append(e)
        if "resid" in o:
            if "model" in o or p["lin"]:
                ev.append({"e": "resid", "out": qi(o["resid"]), "hasmodel": int("model" in o), "model": qi(o["model"]) if "model" in o else [], "opt": opt})
        if "weights" in o:
            ev.append({"e": "weights", "out": qi(o["weights"])})
        ev.append({"e": "end"})
    return tr


# ------------------------------------------------------------------ concretise

def concrete(hist, rng, work, boots=(5, 12), kind=None, single=False):
    """Abstract history (list of sessions from MCFitSession) -> case."""
    _work[0] = os.path.join(work, "gen")
    lin = kind == "lin" if kind else rng.random() < 0.6
    stat = rng.choice(["chi2", "chi2", "chi2", "mlr", "cash"]) if lin else rng.choice(["chi2", "chi2", "mlr", "cash"])
    solvers = [s["solver"] for s in hist]
    h = copy.deepcopy(hist)
    for s in h:
        if stat == "cash" and s["solver"] == "LM" and s["mode"] == "fit":
            s["solver"] = "NM"
    de = any(s["solver"] == "DE" and s["mode"] == "fit" for s in h)
    p = problem(rng, stat, lin or single, de, any(s["stop"] for s in h) or rng.random() < 0.4, single)
    for s in h:
        if s["solver"] == "DE" and rng.random() < 0.3:
            s["solver"] = "DELHS"
        if s["solver"] == "NM" and rng.random() < 0.3 and not lin:
            s["solver"] = rng.choice(["NM", "BOBYQA", "SBPLX"])
        s["seed"] = rng.randint(1, 10**6)
        s["boot"] = rng.choice(boots) if s["boot"] else 0
        s["bad"] = []
        if rng.random() < 0.2:
            s["bad"] = [k for k in ("model", "resid", "weights", "boot") if k not in s["want"] and rng.random() < 0.6 and (k != "boot" or s["boot"])]
        if s["stop"]:
            s["at"] = 2 * rng.choice([1, 2, 3, 5, 8] if s["solver"] == "LM" else [1, 2, 7, 20, 45, 120])
    return {"p": p, "hist": h, "single": int(single)}
