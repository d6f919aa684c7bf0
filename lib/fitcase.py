"""Cases of spec/FitStat.tla and their replay through `imfit --fitstat-only`."""
import os, re, random, shutil
from fractions import Fraction
import vlib, fits, imagecase as ic

NAN = {"k": 0, "v": 0}


def px(v):
    return {"k": 1, "v": v}


def fl(p):
    if p["k"] == 1:
        return float(p["v"])
    return {0: float("nan"), 1: float("inf"), 2: float("-inf")}[p.get("w", 0)]


def rows(v):
    return [[fl(p) for p in r] for r in v]


def clean(v):
    return [[{"k": p["k"], "v": p["v"]} for p in r] for r in v]


def model_at(mod, nx, ny):
    """Integer model image: used only to stay inside the domain the specification covers."""
    p = mod["psf"]

    def raw(x, y):
        t = 0
        for s in mod["sets"]:
            for f in s["fns"]:
                if f["k"] in ("flat", "const"):
                    t += f["a"]
                elif f["k"] == "tilt":
                    t += f["a"] + f["mx"] * (x - s["x"] // 2) + f["my"] * (y - s["y"] // 2)
                elif f["k"] == "spike":
                    t += f["a"] if (2 * x == s["x"] and 2 * y == s["y"]) else 0
        return t
    if not p["w"]:
        return [[raw(x, y) for x in range(1, nx + 1)] for y in range(1, ny + 1)]
    n = sum(map(sum, p["v"])) if p["norm"] else 1
    cx, cy = p["w"] // 2, p["h"] // 2
    return [[Fraction(sum(p["v"][r][q] * raw(x - (q - cx), y - (r - cy)) for r in range(p["h"]) for q in range(p["w"])), n)
             for x in range(1, nx + 1)] for y in range(1, ny + 1)]


STATOPT = {"chi2": [], "chi2model": ["--model-errors"], "cash": ["--cashstat"], "mlr": ["--poisson-mlr"]}


KEYW = {"gain": "GAIN", "readnoise": "READNOISE", "exptime": "EXPTIME", "ncombined": "NCOMBINED", "sky": "ORIGINAL_SKY"}


def config(case, rng, dx=0, dy=0, limits=False):
    t = []
    opts = []
    for k in ("gain", "readnoise", "exptime", "ncombined", "sky"):
        if k in case["opts"]:
            opts.append((k, case["opts"][k]))
    cmd = []
    for k, v in opts:
        if rng.random() < 0.5:
            t.append("%s\t%s" % (KEYW[k], v))
        else:
            cmd += ["--" + k, str(v)]
            if rng.random() < 0.4:      # the command line overrides the file
                t.append("%s %s" % (KEYW[k], rng.choice([v for v in ("2", "3", "5") if k != "exptime"] or ["7"])))
    nfree = 0
    for s in case["model"]["sets"]:
        for nm, v in (("X0", s["x"] + 2 * dx), ("Y0", s["y"] + 2 * dy)):
            fx = rng.random() < 0.6
            nfree += not fx
            t.append("%s %s %s" % (nm, ic.half(v), "fixed" if fx else ""))
        for fn in s["fns"]:
            name, ps = ic.realise(fn, rng)
            t.append("FUNCTION " + name)
            for n, v in ps:
                fx = rng.random() < 0.4
                nfree += not fx
                t.append("%s\t%s\t%s" % (n, v, "fixed" if fx else ""))
    return "\n".join(t) + "\n", cmd, nfree


def events(case):
    o = {k: Fraction(str(v)) for k, v in case["opts"].items()}
    g = o.get("gain", Fraction(1)) * o.get("exptime", Fraction(1)) * o.get("ncombined", 1)
    ch = {"gn": g.numerator, "gd": g.denominator, "rn": int(o.get("readnoise", 0)), "nc": int(o.get("ncombined", 1)),
          "sky": int(o.get("sky", 0))}
    ev = [{"e": "data", "v": clean(case["data"])}]
    if case["mask"]["has"]:
        ev.append({"e": "mask", "m": dict(case["mask"], v=clean(case["mask"]["v"]))})
    if case["err"]["has"]:
        ev.append({"e": "err", "m": dict(case["err"], v=clean(case["err"]["v"]))})
    ev += [{"e": "chars", "h": ch}, {"e": "stat", "s": case["stat"]}, {"e": "final"}]
    return ev


def g(pat, out):
    m = re.search(pat, out)
    return m.group(1) if m else None


def quant(s, scale=10000):
    try:
        return ic.q(float(s), scale) 
    except (TypeError, ValueError):
        return ic.SENT


def replay(case, work, i, seed=0):
    d = os.path.join(work, "f%05d" % i)
    os.makedirs(d, exist_ok=True)
    rng = random.Random("%s/%d/fit" % (seed, i))
    txt, cmd, k = config(case, rng)
    with open(os.path.join(d, "c.dat"), "w") as f:
        f.write(txt)
    fits.write(os.path.join(d, "data.fits"), rows(case["data"]))
    args = ["imfit", "data.fits", "-c", "c.dat", "--fitstat-only", "--no-subsampling"] + cmd + list(STATOPT[case["stat"]])
    if case["mask"]["has"]:
        fits.write(os.path.join(d, "mask.fits"), rows(case["mask"]["v"]))
        args += ["--mask", "mask.fits"] + (["--mask-zero-is-bad"] if case["mask"]["zerobad"] else [])
    if case["err"]["has"]:
        fits.write(os.path.join(d, "err.fits"), rows(case["err"]["v"]))
        args += ["--noise", "err.fits"] + {"sigma": [], "variance": ["--errors-are-variances"],
                                           "weight": ["--errors-are-weights"]}[case["err"]["type"]]
    p = case["model"]["psf"]
    if p["w"]:
        fits.write(os.path.join(d, "psf.fits"), p["v"])
        args += ["--psf", "psf.fits"] + ([] if p["norm"] else ["--no-normalize"])
    args += ["--save-model", "m.fits", "--save-residual", "r.fits", "--save-weights", "w.fits"]
    if case.get("threads"):
        args += ["--max-threads", str(case["threads"])]
    rc, out, err = vlib.run(vlib.scramble(args, rng), d, threads=case.get("threads", 1))
    ev = events(case)
    st = g(r"(?:CHI-SQUARE|CASH STATISTIC|POISSON-MLR STATISTIC) = (\S+)", out)
    if rc == 0 and st is not None:
        name = g(r"(CHI-SQUARE|CASH STATISTIC|POISSON-MLR STATISTIC) = ", out)
        ev.append({"e": "eval", "m": case["model"]})
        dof = g(r"\((\S+) DOF\)", out)
        red = g(r"Reduced Chi\^2(?: equivalent)? = (\S+)", out)
        ok = name == {"chi2": "CHI-SQUARE", "chi2model": "CHI-SQUARE", "cash": "CASH STATISTIC", "mlr": "POISSON-MLR STATISTIC"}[case["stat"]]
        ev.append({"e": "printed" if ok else "wrong-statistic", "stat": quant(st), "k": k, "dof": int(dof) if dof else -1,
                   "hasred": 1 if red else 0, "red": quant(red) if red else 0,
                   "aic": quant(g(r"AIC = (\S+),", out)), "bic": quant(g(r"BIC = (\S+)", out))})
        for e, fn in (("modelimage", "m.fits"), ("residual", "r.fits"), ("weights", "w.fits")):
            try:
                ev.append({"e": e, "out": ic.qimg(fits.read(os.path.join(d, fn))[0])})
            except Exception as x:
                ev.append({"e": "missing", "what": e, "err": repr(x)})
        # the same statistic as the Levenberg-Marquardt solver sees it at its first evaluation
        if case.get("lm") and case["stat"] != "cash" and k > 0:
            a2 = [a for a in args if a != "--fitstat-only"]
            a2 = a2[:a2.index("--save-model")] + ["--save-params", "p.dat", "--ftol", "0.1"]
            rc2, out2, err2 = vlib.run(vlib.scramble(a2, rng), d, threads=case.get("threads", 1))
            ini = g(r"INITIAL (?:CHI\^2|POISSON-MLR STATISTIC) = (\S+)", out2)
            if "Not enough degrees of freedom" in out2 or (dof and int(dof) < 0) or "mpfit status = -" in out2 or "mpfit status = 0" in out2:
                pass
            elif ini is None:
                ev.append({"e": "failed", "rc": rc2, "err": err2[-300:]})
            else:
                ev.append({"e": "initial", "stat": quant(ini)})
    elif rc not in (0, 124) and rc > 0:
        made = [f for f in os.listdir(d) if f in ("m.fits", "r.fits", "w.fits")]
        ev.append({"e": "refused" if not made else "refused-with-output", "err": err[-300:]})
    else:
        ev.append({"e": "failed", "rc": rc, "err": err[-300:]})
    shutil.rmtree(d, ignore_errors=True)
    return {"id": i, "ev": ev, "case": case, "args": " ".join(args), "cfg": txt}


# ---------------------------------------------------------------- random cases

def rmodel(rng, nx, ny):
    usepsf = rng.random() < 0.4
    kinds = ["flat", "const", "tilt", "spike"]
    psf = ic.NOPSF
    if usepsf:
        psf = ic.rpsf(rng, 3, 3, norm=0)
        if rng.random() < 0.5:
            psf["norm"] = 1
            kinds = ["flat", "const"]
    sets = []
    for _ in range(rng.choice([1, 1, 2])):
        sets.append({"x": 2 * rng.randint(0, nx + 1), "y": 2 * rng.randint(0, ny + 1),
                     "fns": [ic.rfn(rng, kinds) for _ in range(rng.randint(1, 2))]})
    return {"sets": sets, "psf": psf}


def rcase(rng):
    while True:
        nx, ny = rng.randint(1, 6), rng.randint(1, 5)
        mod = rmodel(rng, nx, ny)
        m = model_at(mod, nx, ny)
        if any(v != int(v) or v > 250 or v < -100 for r in m for v in r):
            continue
        stat = rng.choice(["chi2", "chi2", "chi2model", "cash", "mlr"])
        opts = {}
        for k, c in (("gain", ["0.5", "2", "1.5", "4"]), ("readnoise", [1, 2, 3, 5]), ("exptime", ["2", "0.5", "10"]), ("ncombined", [2, 3]),
                     ("sky", [1, 10, 25])):
            if rng.random() < 0.4:
                opts[k] = rng.choice(c)
        sky = opts.get("sky", 0)
        geff = float(opts.get("gain", 1)) * float(opts.get("exptime", 1)) * float(opts.get("ncombined", 1))
        if geff > 12:
            continue
        if stat == "chi2model" and any(v + sky < 0 or (v + sky == 0 and "readnoise" not in opts) for r in m for v in r):
            continue
        lo = -5 if stat in ("chi2", "chi2model") else -sky
        data = [[px(max(lo, int(v) + rng.randint(-6, 12)) if rng.random() < 0.8 else max(lo, rng.randint(0, 150))) for v in r] for r in m]
        if stat in ("cash", "mlr"):
            if any(m[y][x] + sky <= 0 for y in range(ny) for x in range(nx)):
                continue
        bad = rng.random() < 0.5
        if bad:
            for _ in range(rng.randint(1, 3)):
                data[rng.randrange(ny)][rng.randrange(nx)] = dict(NAN, w=rng.choice([0, 1, 2]))
        mask = {"has": 0, "zerobad": 0, "v": []}
        if rng.random() < 0.6:
            zb = rng.choice([0, 1])
            good = [1, 1, 1, 2] if zb else [0]
            badv = [0] if zb else [1, 2, 7]
            fr = rng.choice([0.2, 0.4, 0.95])
            mask = {"has": 1, "zerobad": zb,
                    "v": [[px(rng.choice(badv if rng.random() < fr else good)) for _ in range(nx)] for _ in range(ny)]}
            if rng.random() < 0.3:
                mask["v"][rng.randrange(ny)][rng.randrange(nx)] = dict(NAN, w=rng.choice([0, 1, 2]))
        err = {"has": 0, "type": "sigma", "v": []}
        if rng.random() < (0.5 if stat == "chi2" else 0.15):
            ty = rng.choice(["sigma", "variance", "weight"])
            err = {"has": 1, "type": ty, "v": [[px(rng.choice([1, 2, 3, 4, 5, 8])) for _ in range(nx)] for _ in range(ny)]}
            if rng.random() < 0.5:
                for _ in range(rng.randint(1, 2)):
                    err["v"][rng.randrange(ny)][rng.randrange(nx)] = rng.choice(
                        [px(0), dict(NAN), px(-1 if ty != "sigma" or rng.random() < 0.3 else 0)])
        # stay inside TLC's integers
        w = 8 if err["has"] else geff
        big = sum((100 + abs(p["v"]) + abs(m[y][x]) + 3 * sky) * 10 * 2 * geff if stat in ("cash", "mlr")
                  else (p["v"] - m[y][x]) ** 2 * w for y, r in enumerate(data) for x, p in enumerate(r))
        if big > 9e4:
            continue
        return {"data": data, "mask": mask, "err": err, "opts": opts, "stat": stat, "model": mod, "lm": rng.choice([0, 1]),
                "threads": rng.choice([1, 1, 2, 3])}
