"""Cases of spec/Geometry.tla: one image function seen in several views."""
import os, shutil, random, copy
import vlib, fits, functions as fu
from imagecase import qimg

LENGTHS = ("L", "s", "R", "B")
PEAKED = ("Exponential", "Gaussian", "Moffat", "Sersic", "Core-Sersic", "ModifiedKing", "ModifiedKing2")
NAMES = [f for f in sorted(fu.FUNCS) if f not in fu.POINTS]


def is3d(f):
    return any(k == "J" for _, k in fu.PARAMS[f])


def transform(fn, v):
    """Parameter values of the view v of a function."""
    f, ps = fn[0], dict(fn[1])
    out, gain = [], v["amp"]
    for p, k in fu.PARAMS[f]:
        a = ps[p]
        if k == "pa":
            if v["mirror"]:
                a = -a
            if p in ("PA", "PA_lon"):
                a += 90 * v["turn"]
        elif k in LENGTHS and not (f == "ModifiedKing2" and p == "c"):
            a = a * v["zoom"]
        elif k == "alpha":
            a = a / v["zoom"]
        elif k in "IiJ":
            a = a * v["amp"]
        out.append([p, a])
    if f == "TiltedSkyPlane":
        mx, my = ps["m_x"] * v["amp"] / v["zoom"], ps["m_y"] * v["amp"] / v["zoom"]
        if v["mirror"]:
            mx = -mx
        for _ in range(v["turn"]):
            mx, my = -my, mx
        out = [["I_0", ps["I_0"] * v["amp"]], ["m_x", mx], ["m_y", my]]
    return [f, out], gain * (v["zoom"] if is3d(f) else 1)


def case(views, rng, name=None):
    """views: [{turn, mirror, zoom, amp}] after the identity; fills in the function and where its centre lies."""
    f = name or rng.choice(NAMES + ["Sersic", "GaussianRing3D", "FlatBar", "FerrersBar3D"])
    fn = fu.draw(rng, name=f)
    slow = f in fu.SLOW
    big = (7, 9) if slow else (9, 13)
    vs = [dict(turn=0, mirror=0, zoom=1, amp=1)] + [dict(v) for v in views]
    for v in vs:
        w, h = rng.randint(*big), rng.randint(*big)
        v["size"] = [w, h]
        v["x"], v["y"] = rng.randint(2, 2 * w), rng.randint(2, 2 * h)
    # at least a few points in common: the parity of the centre
    for v in vs[1:]:
        if v["zoom"] in (1, 5):
            v["x"] += (v["x"] + vs[0]["x"]) % 2
            v["y"] += (v["y"] + vs[0]["y"]) % 2
            if v["turn"] % 2 and (vs[0]["x"] + vs[0]["y"]) % 2:
                v["x"] += 1
                v["y"] += 1
    sub = 0
    if not slow and rng.random() < .5:
        sub = rng.choice([4, 5, 6])            # zoomed view of the inner pixels
    return {"fn": fn, "views": vs, "sub": sub, "threads": rng.choice([1, 1, 2, 3]), "seed": rng.randrange(10**6)}


def half(h):
    return "%s" % (h / 2)


def render(d, fn, x, y, size, threads, sub, rng):
    open(os.path.join(d, "c.dat"), "w").write("X0 %s\nY0 %s\n" % (half(x), half(y)) +
                                              "FUNCTION %s\n" % fn[0] + "".join("%s\t%r\n" % (p, a) for p, a in fn[1]))
    o = os.path.join(d, "out.fits")
    if os.path.exists(o):
        os.remove(o)
    args = ["makeimage", "c.dat", "-o", "out.fits", "--ncols", str(size[0]), "--nrows", str(size[1]), "--max-threads", str(threads)]
    if not sub:
        args.append("--no-subsampling")
    rc, out, err = vlib.run(vlib.scramble(args, rng), d, threads=threads, timeout=120)
    return qimg(fits.read(o)[0])


def replay(case, work, i):
    d = os.path.join(work, "r%05d" % i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    rng = random.Random(case["seed"])
    f = case["fn"][0]
    tol = 200 if is3d(f) and f != "EdgeOnDisk" else 3
    sym = 0 if f == "TiltedSkyPlane" else 1
    hole = 1 if f in ("Core-Sersic", "GaussianRingAz") else 0      # no value at the centre itself
    ev = []
    try:
        for v in case["views"]:
            g, gain = transform(case["fn"], v)
            ev.append({"e": "view", "v": {"turn": v["turn"], "mirror": v["mirror"], "zoom": v["zoom"], "gain": gain, "x": v["x"], "y": v["y"],
                                          "sym": sym, "hole": hole, "tol": tol},
                       "size": v["size"], "out": render(d, g, v["x"], v["y"], v["size"], case["threads"], False, rng)})
        if case["sub"]:
            n = case["sub"] * 5
            z = dict(turn=0, mirror=0, zoom=10, amp=1)
            g, gain = transform(case["fn"], z)
            x, y = 2 * rng.randint(n // 2 - 3, n // 2 + 3) + 1, 2 * rng.randint(n // 2 - 3, n // 2 + 3) + 1
            if gain == 1:
                v0 = case["views"][0]
                ev.append({"e": "view", "v": {"turn": 0, "mirror": 0, "zoom": 10, "gain": 1, "x": x, "y": y, "sym": sym, "hole": hole, "tol": tol},
                           "size": [n, n], "out": render(d, g, x, y, [n, n], case["threads"], False, rng)})
                ev.append({"e": "sub", "v": {"turn": 0, "mirror": 0, "zoom": 1, "gain": 1, "x": v0["x"], "y": v0["y"], "sym": sym, "hole": hole, "tol": tol},
                           "part": 12 if f in PEAKED else 1,
                           "size": v0["size"], "out": render(d, case["fn"], v0["x"], v0["y"], v0["size"], case["threads"], True, rng)})
    except Exception as e:
        ev.append({"e": "failed", "err": repr(e)[-300:]})
    shutil.rmtree(d, ignore_errors=True)
    return {"id": i, "ev": ev, "case": case}
