"""Cases of spec/Image.tla: generation (from TLC or seeded-random) and replay through makeimage."""
import os, random, json, itertools
import vlib, fits

SENT = -999999999          # not a finite number / not representable
NPAR = {"FlatSky": 1, "TiltedSkyPlane": 3, "Exponential": 4, "Gaussian": 4, "Moffat": 5,
        "Exponential_GenEllipse": 5, "PointSource": 1}
BIG, TINY = "1e13", "1.0e-4"


def q(v, scale=1000):
    if v != v or v in (float("inf"), float("-inf")) or abs(v) * scale > 1e9:
        return SENT
    return int(round(v * scale))


def qimg(rows, scale=1000):
    return [[q(v, scale) for v in r] for r in rows]


def half(h):
    return "%d" % (h // 2) if h % 2 == 0 else "%.1f" % (h / 2.0)


def realise(fn, rng):
    """An actual image function with the brightness of the abstract component."""
    k = fn["k"]
    if k == "flat":
        return "FlatSky", [("I_sky", fn["a"])]
    if k == "tilt":
        return "TiltedSkyPlane", [("I_0", fn["a"]), ("m_x", fn["mx"]), ("m_y", fn["my"])]
    if k == "ptsrc":
        return "PointSource", [("I_tot", fn["a"])]
    pa, ell = rng.choice([0, 17, 33, 90, 121]), rng.choice(["0.0", "0.25", "0.5"])
    if k == "spike":
        r = fn.get("real") or rng.choice(["Gaussian", "Exponential", "Exponential_GenEllipse"])
        s = TINY
    else:
        r = fn.get("real") or rng.choice(["Gaussian", "Exponential", "Moffat", "Exponential_GenEllipse"])
        s = BIG
    fn["real"] = r
    if r == "Gaussian":
        return r, [("PA", pa), ("ell", ell), ("I_0", fn["a"]), ("sigma", s)]
    if r == "Exponential":
        return r, [("PA", pa), ("ell", ell), ("I_0", fn["a"]), ("h", s)]
    if r == "Moffat":
        return r, [("PA", pa), ("ell", ell), ("I_0", fn["a"]), ("fwhm", s), ("beta", "3.0")]
    return r, [("PA", pa), ("ell", ell), ("c0", rng.choice(["0.0", "-0.5", "0.75"])), ("I_0", fn["a"]), ("h", s)]


def config(case, rng, size_in_config=True, dx=0, dy=0):
    t = []
    if size_in_config:
        t += ["NCOLS %d" % case["dim"]["nx"], "NROWS %d" % case["dim"]["ny"]]
    names = []
    for s in case["sets"]:
        t += ["X0 %s" % half(s["x"] + 2 * dx), "Y0   %s" % half(s["y"] + 2 * dy)]
        for fn in s["fns"]:
            name, ps = realise(fn, rng)
            names.append(name)
            t.append("FUNCTION %s" % name)
            t += ["%s\t%s" % p for p in ps]
    return "\n".join(t) + "\n", names


def scaled(p, total):
    """PSF pixels with another sum: irrelevant when the program normalises the PSF."""
    if not total:
        return p["v"]
    f = float(total) / sum(map(sum, p["v"]))
    return [[x * f for x in r] for r in p["v"]]


def psf_args(case, d):
    a = []
    p = case["psf"]
    if p["w"]:
        fits.write(os.path.join(d, "psf.fits"), scaled(p, case.get("psfsum", 0) if p["norm"] else 0))
        a += ["--psf", "psf.fits"]
        if not p["norm"]:
            a += ["--no-normalize"]
    for i, r in enumerate(case["regions"]):
        fits.write(os.path.join(d, "opsf%d.fits" % i), scaled(r["psf"], case.get("psfsum", 0)))
        a += ["--overpsf", "opsf%d.fits" % i, "--overpsf_scale", str(r["s"]),
              "--overpsf_region", "%d:%d,%d:%d" % (r["x1"], r["x2"], r["y1"], r["y2"])]
    return a


def events(case):
    ev = [{"e": "size", "nx": case["dim"]["nx"], "ny": case["dim"]["ny"]}]
    for s in case["sets"]:
        ev.append({"e": "set", "x": s["x"], "y": s["y"]})
        ev += [{"e": "fn", "fn": f} for f in s["fns"]]
    if case["psf"]["w"]:
        ev.append({"e": "psf", "psf": case["psf"]})
    ev += [{"e": "region", "region": r} for r in case["regions"]]
    return ev


def replay(case, work, i, singles=False, seed=0):
    """Run makeimage on a case; returns the recorded trace."""
    d = os.path.join(work, "r%05d" % i)
    os.makedirs(d, exist_ok=True)
    rng = random.Random("%s/%d" % (seed, i))
    txt, names = config(case, rng)
    with open(os.path.join(d, "c.dat"), "w") as f:
        f.write(txt)
    args = ["makeimage", "c.dat", "-o", "out.fits", "--no-subsampling"] + psf_args(case, d)
    if case.get("threads"):
        args += ["--max-threads", str(case["threads"])]
    if singles:
        args += ["--output-functions", "one_"]
    rc, out, err = vlib.run(args, d, threads=case.get("threads", 1))
    ev = events(case)
    tr = {"id": i, "ev": ev, "cfg": txt, "args": " ".join(args), "case": case, "singles": 1 if singles else 0}
    try:
        ev.append({"e": "image", "out": qimg(fits.read(os.path.join(d, "out.fits"))[0])})
        if singles:
            for n, nm in enumerate(names):
                ev.append({"e": "one", "n": n + 1,
                           "out": qimg(fits.read(os.path.join(d, "one_%d_%s.fits" % (n + 1, nm)))[0])})
    except Exception as e:
        ev.append({"e": "failed", "rc": rc, "err": (err[-300:] + repr(e))})
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    return tr


# ------------------------------------------------------------------ random cases

def rpsf(rng, wmax=5, hmax=5, norm=None, border0=False, lo=0, odd=False):
    w, h = rng.randint(1, wmax), rng.randint(1, hmax)
    if odd:
        w, h = rng.choice([5, 7]), rng.choice([5, 7])
    v = [[rng.choice([0, 1, 2, 3]) if lo == 0 else rng.randint(lo, 4) for _ in range(w)] for _ in range(h)]
    if border0:
        for r in range(h):
            for c in range(w):
                if r in (0, h - 1) or c in (0, w - 1):
                    v[r][c] = 0
    v[h // 2][w // 2] += 1
    return {"w": w, "h": h, "norm": rng.choice([1, 1, 1, 0]) if norm is None else norm, "v": v}


NOPSF = {"w": 0, "h": 0, "norm": 1, "v": []}


def rfn(rng, kinds):
    k = rng.choice(kinds)
    f = {"k": k, "a": rng.randint(1, 60)}
    if k == "tilt":
        f["mx"], f["my"] = rng.randint(-4, 4), rng.randint(-4, 4)
    return f


def rcase(rng, psf="maybe", regions=0, points=False, maxfn=5):
    nx, ny = rng.randint(2, 11), rng.randint(2, 11)
    if nx == ny:
        ny += 1
    kinds = ["flat", "const", "tilt", "tilt", "spike", "spike"]
    nset = rng.choice([1, 1, 2, 2, 3])
    sets = []
    for _ in range(nset):
        on_grid = rng.random() < 0.7
        x, y = 2 * rng.randint(-1, nx + 2), 2 * rng.randint(-1, ny + 2)
        if not on_grid:
            x, y = x + rng.randint(-1, 1), y + rng.randint(-1, 1)
        sets.append({"x": x, "y": y, "fns": [rfn(rng, kinds) for _ in range(rng.randint(1, max(1, maxfn // nset)))]})
    case = {"dim": {"nx": nx, "ny": ny}, "sets": sets, "psf": NOPSF, "regions": []}
    if psf == "always" or (psf == "maybe" and rng.random() < 0.5):
        case["psf"] = rpsf(rng, norm=None if not regions else 1)
    for _ in range(regions):
        x1, y1 = rng.randint(1, nx - 1), rng.randint(1, ny - 1)
        x2, y2 = rng.randint(x1 + 1, nx), rng.randint(y1 + 1, ny)
        x2, y2 = min(x2, x1 + 4), min(y2, y1 + 3)
        if rng.random() < 0.25:      # sticks out of the image
            if rng.random() < 0.5:
                x1 -= rng.randint(1, 3) if x1 <= 2 else 0
                y2 = ny + rng.randint(1, 4)
            else:
                x2 = nx + rng.randint(1, 3)
                y1 = min(y1, 1) - rng.randint(0, 2)
        case["regions"].append({"x1": x1, "x2": x2, "y1": y1, "y2": y2, "s": rng.choice([1, 2, 2, 3, 3, 4, 5]),
                                "psf": rpsf(rng, 4, 4, norm=1), "raw": 0})
    if points:
        # sources on pixel centres; PSFs large enough for the interpolator, odd-sized
        if psf != "never" or not case["psf"]["w"]:
            case["psf"] = rpsf(rng, norm=1, odd=True)
        for r in case["regions"]:
            r["psf"] = rpsf(rng, norm=1, odd=True, border0=True)
            r["s"] = rng.choice([1, 3])
        s = rng.choice(case["sets"])
        s["x"], s["y"] = 2 * rng.randint(0, nx + 1), 2 * rng.randint(0, ny + 1)
        s["fns"].insert(rng.randint(0, len(s["fns"])), {"k": "ptsrc", "a": rng.randint(1, 200)})
    return case
