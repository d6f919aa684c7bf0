"""Cases of spec/MultiImage.tla: one model in several images, with makemultimages, makeimage, multimfit and imfit."""
import os, re, shutil, random
import vlib, fits, functions as fu

# as Turns and Kind in spec/MultiImage.tla
TURNS = [(0, 10, 0), (900000, 0, 10), (-900000, 0, -10), (1800000, -10, 0), (531301, 6, 8), (-368699, 8, -6), (368699, 8, 6)]
LENGTH, RATE, INTENS = "LsRB", ("alpha",), "IiJ"


def kinds(f):
    out = []
    for j, (q, k) in enumerate(fu.PARAMS[f]):
        if f == "TiltedSkyPlane" and k == "m":
            out.append("Sx" if q == "m_x" else "Sy")
        elif k == "pa":
            out.append("A" if j == 0 else "P")
        elif k in INTENS:
            out.append("I")
        elif k in LENGTH and not (f == "ModifiedKing2" and q == "c"):
            out.append("L")
        elif k in RATE:
            out.append("R")
        else:
            out.append("P")
    return out


def turn(dx, dy, t):
    _, c, s = TURNS[t - 1]
    return (dx * c + dy * s) // 10, (dy * c - dx * s) // 10


def seen(f, p, im):
    out = []
    for j, k in enumerate(kinds(f)):
        v = p[j]
        if k == "A":
            v = v - TURNS[im["a"] - 1][0]
        elif k == "I":
            v = v * im["f"][0] // im["f"][1]
        elif k == "L":
            v = v * im["s"][1] // im["s"][0]
        elif k == "R":
            v = v * im["s"][0] // im["s"][1]
        elif k == "Sx":
            v = turn(p[j], p[j + 1], im["a"])[0] * im["s"][0] // im["s"][1] * im["f"][0] // im["f"][1]
        elif k == "Sy":
            v = turn(p[j - 1], p[j], im["a"])[1] * im["s"][0] // im["s"][1] * im["f"][0] // im["f"][1]
        out.append(v)
    return out


def view(model, im, first):
    if first:
        own = model
    else:
        own = []
        for s in model:
            d = turn(s["x"] - model[0]["x"], s["y"] - model[0]["y"], im["a"])
            own.append({"x": im["x"] + d[0] * im["s"][1] // im["s"][0], "y": im["y"] + d[1] * im["s"][1] // im["s"][0],
                        "fs": [{"f": g["f"], "p": seen(g["f"], g["p"], im)} for g in s["fs"]]})
    return own + im["local"]


def num(v):
    s = "%d.%04d" % (abs(v) // 10000, abs(v) % 10000)
    return ("-" if v < 0 else "") + s


def text(sets, ox=0, oy=0, lim=None, rng=None):
    """sets in the configuration-file format; lim: limits per position of the flat vector"""
    out, i = "", 0

    def tail():
        l = (lim or {}).get(i)
        return "" if l is None else "   fixed" if l == "fixed" else "   %s,%s" % (num(l[0]), num(l[1]))
    for s in sets:
        for q, v in (("X0", s["x"] + ox), ("Y0", s["y"] + oy)):
            out += "%s\t%s%s\n" % (q, num(v), tail())
            i += 1
        for g in s["fs"]:
            out += "FUNCTION %s\n" % g["f"]
            for (q, _), v in zip(fu.PARAMS[g["f"]], g["p"]):
                out += "%s\t%s%s\n" % (q, num(v), tail())
                i += 1
    return out


def parse(path):
    """The function sets of a saved model (values in 10^-4)."""
    sets = []
    for ln in open(path):
        ln = ln.split("#")[0].split()
        if not ln:
            continue
        if ln[0] == "X0":
            sets.append({"x": None, "y": None, "fs": []})
        v = int(round(float(ln[1]) * 10000)) if ln[0] != "FUNCTION" else 0
        if ln[0] == "X0":
            sets[-1]["x"] = v
        elif ln[0] == "Y0":
            sets[-1]["y"] = v
        elif ln[0] == "FUNCTION":
            sets[-1]["fs"].append({"f": ln[1], "p": []})
        else:
            sets[-1]["fs"][-1]["p"].append(v)
    return sets


def rnd(v, step=100):
    return int(round(v * 10000 / step)) * step


def func(rng, names):
    fn = fu.draw(rng, names)
    return {"f": fn[0], "p": [rnd(v) for _, v in fn[1]]}


def draw_set(rng, n, names, nf):
    return {"x": rnd(rng.uniform(2, n - 2)), "y": rnd(rng.uniform(2, n - 2)), "fs": [func(rng, names) for _ in range(nf)]}


def draw_image(rng, first, n, names, flat=False):
    im = {"s": [1, 1], "a": 1, "f": [1, 1], "x": 0, "y": 0, "ox": 0, "oy": 0, "local": []}
    if not first:
        im.update(s=rng.choice([[1, 1], [2, 1], [1, 2], [5, 4], [4, 5], [5, 2]]), a=rng.randint(1, len(TURNS)),
                  f=rng.choice([[1, 1], [5, 2], [1, 4], [3, 1]]), x=rnd(rng.uniform(3, n - 2)), y=rnd(rng.uniform(3, n - 2)))
    if rng.random() < .3:
        im["local"] = [draw_set(rng, n, names, rng.randint(1, 2)) for _ in range(rng.randint(1, 2))]
    return im


def rand_case(rng, names):
    n = rng.randint(8, 18)
    model = [draw_set(rng, n, names, rng.choice([1, 1, 2, 3])) for _ in range(rng.choice([1, 2, 2, 3]))]
    images = [draw_image(rng, i == 0, n, names) for i in range(rng.choice([1, 2, 2, 3]))]
    return finish({"model": model, "images": images, "mode": rng.choice(["picture", "picture", "stat"])}, rng)


def finish(case, rng):
    case["seed"] = rng.randrange(10**9)
    return case


PSF = [[1, 2, 1, 0, 0], [0, 5, 3, 1, 0], [1, 1, 9, 0, 1], [0, 2, 0, 0, 0], [0, 0, 1, 0, 0], [0, 1, 0, 0, 0], [0, 0, 0, 0, 1]]


def sizes(case, rng, big=False):
    return [[rng.randint(6, 20), rng.randint(6, 20)] for _ in case["images"]]


def image_block(im, first, extra=(), ox=0, oy=0, lims=None, rng=None, free=False):
    out = ["IMAGE_START"] + list(extra)
    if not first:
        pa = TURNS[im["a"] - 1][0]
        lims = lims or {}

        def tail(k):
            l = lims.get(k)
            return "" if l is None else "\tfixed" if l == "fixed" else "\t%s,%s" % (num(l[0]), num(l[1]))
        d = [("PIXEL_SCALE", im["s"][0] * 10000 // im["s"][1]), ("IMAGE_PA", pa), ("FLUX_SCALE", im["f"][0] * 10000 // im["f"][1]),
             ("X0", im["x"] + ox), ("Y0", im["y"] + oy)]
        ls = ["%s\t%s%s" % (k, num(v), tail(k)) for k, v in d]
        if rng is not None:
            rng.shuffle(ls)
        out += ls
    t = "\n".join(out) + "\n"
    if im["local"]:
        t += "FUNCTIONS_START\n" + text(im["local"], im["ox"], im["oy"])
    return t


def start(case):
    return [{"e": "set", "s": s} for s in case["model"]] + [{"e": "image", "im": im} for im in case["images"]]


def picture(case, d, rng):
    ev = []
    size = sizes(case, rng)
    points = any(g["f"] in fu.POINTS for s in case["model"] + [s for im in case["images"] for s in im["local"]] for g in s["fs"])
    psf = [points or rng.random() < .3 for _ in size]
    fits.write(os.path.join(d, "psf.fits"), PSF)
    over = [p and rng.random() < .4 for p in psf]
    info = ""
    for i, im in enumerate(case["images"]):
        # a size may also come from a data image
        nx, ny = size[i]
        w = rng.randrange(4)
        if w == 0:
            fits.write(os.path.join(d, "size%d.fits" % i), [[0] * nx for _ in range(ny)])
            ex = ["DATA size%d.fits" % i]
        elif w == 1:
            ex = ["NCOLS,NROWS\t%d,%d" % (nx, ny)]
        else:
            ex = ["NCOLS\t%d" % nx, "NROWS\t%d" % ny]
        if psf[i]:
            ex.append("PSF\tpsf.fits")
        if over[i]:
            ex += ["OVERSAMPLED_PSF\tpsf.fits", "OVERSAMPLE_SCALE\t2", "OVERSAMPLED_REGION\t2:4,3:5"]
        rng.shuffle(ex)
        info += image_block(im, i == 0, ex, rng=rng) + "\n"
    open(os.path.join(d, "model.dat"), "w").write(text(case["model"]))
    open(os.path.join(d, "info.dat"), "w").write(info)
    th = rng.choice([1, 1, 2, 4])
    args = ["makemultimages", "model.dat", "--image-info", "info.dat", "-o", "mm", "--max-threads", str(th)]
    rc, out, err = vlib.run(vlib.scramble(args, rng), d, threads=th, timeout=300)
    if rc != 0:
        raise ValueError("makemultimages: status %s %s" % (rc, err[-200:]))
    for i, im in enumerate(case["images"]):
        v = view(case["model"], im, i == 0)
        open(os.path.join(d, "v%d.dat" % i), "w").write(text(v))
        a = ["makeimage", "v%d.dat" % i, "-o", "v%d.fits" % i, "--ncols", str(size[i][0]), "--nrows", str(size[i][1])]
        if psf[i]:
            a += ["--psf", "psf.fits"]
        if over[i]:
            a += ["--overpsf", "psf.fits", "--overpsf_scale", "2", "--overpsf_region", "2:4,3:5"]
        rc, out, err = vlib.run(a, d, timeout=300)
        A, B = fits.read(os.path.join(d, "mm_%d.fits" % i))[0], fits.read(os.path.join(d, "v%d.fits" % i))[0]
        ev.append({"e": "picture", "n": i + 1, "view": v, "ppm": differ(A, B)})
    return ev


def differ(A, B):
    if len(A) != len(B) or any(len(a) != len(b) for a, b in zip(A, B)):
        return 2000000
    A, B = [x for r in A for x in r], [x for r in B for x in r]
    nan = [(a != a) != (b != b) for a, b in zip(A, B)]
    if any(nan):
        return 1500000
    fin = [(a, b) for a, b in zip(A, B) if a == a and abs(a) < 1e30 and abs(b) < 1e30]
    if not fin:
        return 0
    top = max(max(abs(b) for a, b in fin), 1e-12)
    # the integral along a line of sight through a sharp edge may jump with the last digit of a parameter: up to two pixels
    return min(1000000, int(sorted(abs(a - b) for a, b in fin)[max(0, len(fin) - 3)] / top * 1e6))


STAT = re.compile(r"(?:CHI-SQUARE|CASH STATISTIC|POISSON-MLR STATISTIC) = (\S+)(?:\s+\((-?\d+) DOF\))?")


def statistic(out):
    m = STAT.search(out)
    if not m:
        raise ValueError("no statistic printed: " + out[-300:])
    return float(m.group(1)), (int(m.group(2)) if m.group(2) else None)


def observe(case, d, rng, kinds=("data", "error", "model", "cash", "mlr")):
    """Data for every image: files, the lines of the image-info file and the corresponding options of imfit."""
    obs = []
    kind = rng.choice(kinds)
    sz = sizes(case, rng)
    fits.write(os.path.join(d, "psf.fits"), PSF)
    points = any(g["f"] in fu.POINTS for s in case["model"] + [s for im in case["images"] for s in im["local"]] for g in s["fs"])
    for i, im in enumerate(case["images"]):
        nx, ny = sz[i]
        v = view(case["model"], im, i == 0)
        open(os.path.join(d, "t.dat"), "w").write(text(v))
        a = ["makeimage", "t.dat", "-o", "t.fits", "--ncols", str(nx), "--nrows", str(ny)]
        psf = points or rng.random() < .3
        over = psf and rng.random() < .3
        if psf:
            a += ["--psf", "psf.fits"]
        if over:
            a += ["--overpsf", "psf.fits", "--overpsf_scale", "2", "--overpsf_region", "2:4,3:5"]
        rc, out, err = vlib.run(a, d, timeout=300)
        if rc != 0:
            raise ValueError("makeimage: status %s %s" % (rc, err[-200:]))
        rows = fits.read(os.path.join(d, "t.fits"))[0]
        rows = [[x if x == x and 0 < x < 1e6 else 1.0 for x in r] for r in rows]
        rows = [[round(x + rng.uniform(-1, 1) * (x ** .5 + .5) + 3, 2) for x in r] for r in rows]
        rows = [[max(x, .5) for x in r] for r in rows]
        name, ox, oy = "data%d.fits" % i, 0, 0
        if rng.random() < .4:       # a section of a larger image
            ox, oy = rng.randint(0, 5), rng.randint(0, 5)
            wx, wy = nx + ox + rng.randint(0, 3), ny + oy + rng.randint(0, 3)
            whole = [[7777.0] * wx for _ in range(wy)]
            for y in range(ny):
                whole[oy + y][ox:ox + nx] = rows[y]
            fits.write(os.path.join(d, name), whole)
            name += "[%d:%d,%d:%d]" % (ox + 1, ox + nx, oy + 1, oy + ny)
        else:
            fits.write(os.path.join(d, name), rows)
        lines, opts, pix = ["DATA\t" + name], [], nx * ny
        g = rng.choice([None, 2.0, 4.5])
        if g:
            lines.append("GAIN\t%g" % g), opts.extend(["--gain", "%g" % g])
        rn = rng.choice([None, 1.5, 3.0])
        if rn:
            lines.append("READNOISE\t%g" % rn), opts.extend(["--readnoise", "%g" % rn])
        sk = rng.choice([None, 4.0, 20.5])
        if psf and kind not in ("data", "error"):       # what is left of the rounding of a convolution is no basis for a statistic
            sk = sk or 4.0
        if sk:
            lines.append("ORIGINAL_SKY\t%g" % sk), opts.extend(["--sky", "%g" % sk])
        nc = rng.choice([None, None, 2, 5])
        if nc:
            lines.append("NCOMBINED\t%d" % nc), opts.extend(["--ncombined", "%d" % nc])
        if rng.random() < .5:
            mask = [[1 if rng.random() < .2 else 0 for _ in range(nx)] for _ in range(ny)]
            mask[0][0] = 0
            fits.write(os.path.join(d, "mask%d.fits" % i), mask)
            pix -= sum(sum(r) for r in mask)
            lines.append("MASK\tmask%d.fits" % i), opts.extend(["--mask", "mask%d.fits" % i])
        if kind == "error":
            fits.write(os.path.join(d, "err%d.fits" % i), [[round(rng.uniform(1, 9), 2) for _ in range(nx)] for _ in range(ny)])
            lines.append("ERROR\terr%d.fits" % i), opts.extend(["--noise", "err%d.fits" % i])
        if psf:
            lines.append("PSF\tpsf.fits"), opts.extend(["--psf", "psf.fits"])
        if over:
            reg = "%d:%d,%d:%d" % (2 + ox, 4 + ox, 3 + oy, 5 + oy)      # of the image the section was taken from
            lines += ["OVERSAMPLED_PSF\tpsf.fits", "OVERSAMPLE_SCALE\t2", "OVERSAMPLED_REGION\t" + reg]
            opts += ["--overpsf", "psf.fits", "--overpsf_scale", "2", "--overpsf_region", reg]
        rng.shuffle(lines)
        obs.append({"lines": lines, "opts": opts, "pix": pix, "name": name, "ox": ox, "oy": oy, "view": v})
    common = {"data": [], "error": [], "model": ["--model-errors"], "cash": ["--cashstat"], "mlr": ["--poisson-mlr"]}[kind]
    return obs, common, kind


def stat(case, d, rng):
    obs, common, kind = observe(case, d, rng)
    for im, o in zip(case["images"], obs):
        im["ox"], im["oy"] = o["ox"] * 10000, o["oy"] * 10000
    ev = start(case)
    o0 = obs[0]
    shifted = text(case["model"], o0["ox"] * 10000, o0["oy"] * 10000)
    open(os.path.join(d, "model.dat"), "w").write(shifted)
    info = "\n".join(image_block(im, i == 0, o["lines"], im["ox"], im["oy"], rng=rng) for i, (im, o) in enumerate(zip(case["images"], obs)))
    open(os.path.join(d, "info.dat"), "w").write(info)
    th = rng.choice([1, 1, 2, 4])
    args = ["multimfit", "-c", "model.dat", "--image-info", "info.dat", "--fitstat-only", "--save-params-root", "saved", "--max-threads", str(th)] + common
    rc, out, err = vlib.run(vlib.scramble(args, rng), d, threads=th, timeout=300)
    if rc != 0:
        raise ValueError("multimfit: status %s %s" % (rc, err[-300:]))
    whole, dof = statistic(out)
    parts = []
    for i, o in enumerate(obs):
        open(os.path.join(d, "w.dat"), "w").write(text(o["view"], o["ox"] * 10000, o["oy"] * 10000))
        rc, out1, err1 = vlib.run(["imfit", o["name"], "-c", "w.dat", "--fitstat-only", "--quiet"] + o["opts"] + common, d, timeout=300)
        parts.append(statistic(out1)[0])
    for i in range(len(obs)):
        f = "saved_refimage.dat" if i == 0 else "saved_image%d.dat" % (i + 1)
        ev.append({"e": "params", "n": i + 1, "saved": parse(os.path.join(d, f))})
    nfree = sum(2 + sum(len(g["p"]) for g in s["fs"]) for s in case["model"] + [s for im in case["images"] for s in im["local"]])
    nfree += 3 * (len(obs) - 1)
    # in 10^-8 of the joint statistic (with its sign); a statistic may be undefined, e.g. with errors from a negative model
    fin = lambda v: v == v and abs(v) < 1e300
    und = [not fin(p) for p in parts]
    sc = [int(round(max(-20, min(20, p / whole)) * 1e8)) if fin(p) and fin(whole) and whole else 0 for p in parts]
    ev.append({"e": "stat", "parts": sc, "und": und, "wund": not fin(whole), "views": [o["view"] for o in obs], "pix": [o["pix"] for o in obs],
               "free": nfree, "dof": {"there": dof is not None, "v": dof or 0}})
    if not any(im["local"] for im in case["images"]) and fin(whole) and whole:
        args = ["multimfit", "-c", "saved_refimage.dat", "--image-info", "saved_imageinfo.dat", "--fitstat-only", "--save-params-root", "saved2"] + common
        rc, out, err = vlib.run(args, d, timeout=300)
        if rc != 0:
            raise ValueError("multimfit, from what it saved: status %s %s" % (rc, err[-300:]))
        w2 = statistic(out)[0]
        ev.append({"e": "again", "whole": int(round(max(-20, min(20, w2 / whole)) * 1e8)) if w2 == w2 else 0})
    return ev


class Long(Exception):
    """A fit that takes too long to wait for."""


SIMPLE = ("Gaussian", "Exponential", "Moffat", "FlatSky", "TiltedSkyPlane", "Sersic")
RANGE = {"ell": (0, 9500), "sigma": (1000, 400000), "h": (1000, 400000), "fwhm": (1000, 400000), "beta": (3000, 200000), "n": (2000, 60000),
         "r_e": (1000, 400000)}


def off(v, rng, by):
    return rnd(v / 1e4 * (1 + rng.uniform(-by, by)))


def unlock(sets, ox, oy, rng):
    """Starting values and limits for function sets: (sets away from the truth, limits by position, how each parameter is held)"""
    out, lim, held = [], {}, []

    def add(v, l):
        if l is not None:
            lim[len(held)] = l
        held.append({"shy": False, "fixed": l == "fixed", "lim": list(l) if isinstance(l, tuple) else [], "before": v, "after": 0})
        return v
    for s in sets:
        t = {"fs": []}
        for q, o in (("x", ox), ("y", oy)):
            v = s[q] + rng.choice([0, 3000, -4000])
            w = rng.randrange(4)
            t[q] = add(v + o, "fixed" if w == 0 else None if w == 1 else (v + o - rng.choice([5000, 20000]), v + o + rng.choice([5000, 20000]))) - o
        for g in s["fs"]:
            p = []
            for (q, k), v in zip(fu.PARAMS[g["f"]], g["p"]):
                if k == "pa":
                    l, v = (v - 900000, v + 900000), v + rng.choice([0, 50000])
                elif q in RANGE:
                    l, v = RANGE[q], off(v, rng, .2)
                    v = max(l[0] + 100, min(l[1] - 100, v))
                else:
                    v = off(v, rng, .2)
                    l = rng.choice([None, (v - abs(v) // 2 - 1000, v + abs(v) // 2 + 1000)])
                p.append(add(v, "fixed" if rng.random() < .25 else l))
            t["fs"].append({"f": g["f"], "p": p})
        out.append(t)
    return out, lim, held


FINAL = re.compile(r"^\s*(?:CHI-SQUARE|CASH STATISTIC|POISSON-MLR STATISTIC) = (\S+)", re.M)


def blocks(path):
    out = []
    for ln in open(path):
        if ln.startswith("IMAGE_START"):
            out.append([])
        elif out and ln.strip() and not ln.startswith("#"):
            out[-1].append(ln.rstrip())
    return out


def fit(case, d, rng):
    algo = rng.choice([[], [], ["--nm"], ["--nlopt", "SBPLX"]])
    obs, common, kind = observe(case, d, rng, ("data", "error", "model", "mlr") if not algo else ("data", "error", "mlr"))
    for im, o in zip(case["images"], obs):
        im["ox"], im["oy"] = o["ox"] * 10000, o["oy"] * 10000
    ev = start(case)
    sets, lim, held = unlock(case["model"], obs[0]["ox"] * 10000, obs[0]["oy"] * 10000, rng)
    open(os.path.join(d, "model.dat"), "w").write(text(sets, obs[0]["ox"] * 10000, obs[0]["oy"] * 10000, lim))
    info, desc, own = "", [], []
    for i, (im, o) in enumerate(zip(case["images"], obs)):
        lims, t = {}, dict(im, local=[])
        if i > 0:
            for k, v in (("PIXEL_SCALE", im["s"][0] * 10000 // im["s"][1]), ("IMAGE_PA", TURNS[im["a"] - 1][0]),
                         ("FLUX_SCALE", im["f"][0] * 10000 // im["f"][1]), ("X0", im["x"] + im["ox"]), ("Y0", im["y"] + im["oy"])):
                w = rng.randrange(3)
                r = {"PIXEL_SCALE": v // 10, "IMAGE_PA": 100000, "FLUX_SCALE": v // 5}.get(k, 10000)
                if w == 0:
                    lims[k] = "fixed"
                elif w == 1:
                    lims[k] = (v - r, v + r)
                desc.append({"shy": k in ("PIXEL_SCALE", "IMAGE_PA"), "fixed": w == 0, "lim": [v - r, v + r] if w == 1 else [], "before": v, "after": 0})
        block = image_block(t, i == 0, o["lines"], im["ox"], im["oy"], lims, rng)
        if im["local"]:
            ls, ll, lh = unlock(im["local"], im["ox"], im["oy"], rng)
            block += "FUNCTIONS_START\n" + text(ls, im["ox"], im["oy"], ll)
            own.append((i, lh))
        info += block + "\n"
    open(os.path.join(d, "info.dat"), "w").write(info)
    th = rng.choice([1, 1, 2, 4])

    def mm(model, info, root, *more):
        args = ["multimfit", "-c", model, "--image-info", info, "--save-params-root", root, "--max-threads", str(th)] + common + list(more)
        rc, out, err = vlib.run(vlib.scramble(args, rng), d, threads=th, timeout=40)
        if rc == 124:
            raise Long
        if rc != 0:
            raise ValueError("multimfit: status %s %s" % (rc, err[-300:]))
        return out
    s0 = statistic(mm("model.dat", "info.dat", "s0", "--fitstat-only"))[0]
    if not s0 == s0 or not 1e-9 < abs(s0) < 1e300:
        return ev
    boot = rng.choice([0, 0, 2, 3, 5])
    out = mm("model.dat", "info.dat", "end", *(algo + (["--bootstrap", str(boot), "--save-bootstrap", "boot.dat"] if boot else [])))
    s1 = float(FINAL.findall(out)[-1])
    final = parse(os.path.join(d, "end_refimage.dat"))
    nm = len(case["model"])
    flat = lambda ss: [v for s in ss for v in [s["x"], s["y"]] + [w for g in s["fs"] for w in g["p"]]]
    for h, v in zip(held, flat(final[:nm])):
        h["after"] = v
    bl = blocks(os.path.join(d, "end_imageinfo.dat"))
    got = [{w.split()[0]: w.split()[1] for w in b} for b in bl]
    for j, h in enumerate(desc):
        h["after"] = int(round(float(got[1 + j // 5][("PIXEL_SCALE", "IMAGE_PA", "FLUX_SCALE", "X0", "Y0")[j % 5]]) * 10000))
    for i, lh in own:
        loc = parse(os.path.join(d, "end_refimage.dat" if i == 0 else "end_image%d.dat" % (i + 1)))[nm:]
        for h, v in zip(lh, flat(loc)):
            h["after"] = v
        bl[i] += ["FUNCTIONS_START"] + [x.split("#")[0] for x in wordy(os.path.join(d, "end_refimage.dat" if i == 0 else "end_image%d.dat" % (i + 1)), nm)]
    open(os.path.join(d, "model2.dat"), "w").write("\n".join(wordy(os.path.join(d, "end_refimage.dat"), 0, nm)) + "\n")
    open(os.path.join(d, "info2.dat"), "w").write("\n\n".join("IMAGE_START\n" + "\n".join(b) for b in bl) + "\n")
    s2 = statistic(mm("model2.dat", "info2.dat", "s2", "--fitstat-only"))[0]
    # above the lowest of the three, in 10^-6 of the range from there to the start (a Cash statistic may be negative)
    k = 1e6 / abs(s0)
    q = lambda v: int(round(max(-2e9, min(2e9, v * k)))) if v == v else 2 * 10**9
    ps = desc + held + [h for _, lh in own for h in lh]
    ev.append({"e": "fit", "ps": ps, "start": q(s0), "end": q(s1), "checked": q(s2)})
    if boot:
        z = lambda v: int(round(max(-2e9, min(2e9, float(v) * 1e4)))) if float(v) == float(v) else 2 * 10**9 + 1
        told = out[out.index("Now doing bootstrap"):]
        lines = [ln.split() for ln in open(os.path.join(d, "boot.dat")) if ln.strip()]
        rows = [[z(v) for v in ln] for ln in lines if ln[0][0] != "#"]
        m = re.search(r"\((\d+) successful", told)
        told = [re.match(r"\w+ = (\S+) +(?:\[fixed|\S+, \S+ +\[(\S+) -- ([^\s,]+),)", ln) for ln in told.split("\n")]
        summary = [{"v": z(t.group(1)), "fixed": t.group(2) is None, "low": z(t.group(2) or 0), "high": z(t.group(3) or 0)} for t in told if t]
        ev.append({"e": "boot", "ps": ps, "asked": boot, "done": int(m.group(1)) if m else len(rows), "rows": rows, "summary": summary,
                   "names": len([ln for ln in lines if ln[0] == "#" and len(ln) > 1][-1]) - 1})
    return ev


def wordy(path, skip, stop=99):
    """The lines of function sets number skip.. to stop- of a saved model."""
    out, n = [], -1
    for ln in open(path):
        w = ln.split("#")[0].strip()
        if not w:
            continue
        if w.startswith("X0"):
            n += 1
        if skip <= n < stop:
            out.append(w)
    return out


def rand_fit(rng):
    n = rng.randint(9, 13)
    one = lambda: {"x": rnd(rng.uniform(4, n - 3)), "y": rnd(rng.uniform(4, n - 3)), "fs": [func(rng, [rng.choice(SIMPLE)]) for _ in range(rng.choice([1, 1, 2]))]}
    model = [one() for _ in range(rng.choice([1, 1, 2]))]
    images = [draw_image(rng, i == 0, n, SIMPLE) for i in range(rng.choice([1, 2, 2, 3]))]
    for im in images:
        im["local"] = im["local"][:1]
    return finish({"model": model, "images": images, "mode": "fit"}, rng)


def replay(case, work, i):
    d = os.path.join(work, "r%05d" % i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    rng = random.Random(case["seed"])
    case = dict(case, images=[dict(im) for im in case["images"]])
    try:
        ev = start(case) + picture(case, d, rng) if case["mode"] == "picture" else stat(case, d, rng) if case["mode"] == "stat" else fit(case, d, rng)
    except Long:
        ev = start(case)
    except Exception as e:
        ev = start(case) + [{"e": "failed", "err": repr(e)[-300:]}]
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(d, ignore_errors=True)
    return {"id": i, "ev": ev, "case": case}
