"""Cases of spec/Runs.tla: one question asked in several ways."""
import os, re, shutil, random, hashlib, struct, gzip
import vlib, fits, functions as fu

ASPECT = {"store": ["f64", "f32", "i16", "i32", "i64", "u16", "scaled", "extension", "gz", "cards"], "layout": ["plain", "tabs", "comments", "numbers"],
          "place": ["line", "file"], "said": ["plain", "scrambled"], "talk": ["normal", "quiet", "silent", "loud"], "save": ["none", "all"],
          "mask": ["bad1", "good1", "bad7"], "noise": ["sigma", "variance", "weight"], "threads": ["1", "2", "4", "default"], "where": ["here", "path"], "left": ["clean", "old"],
          "env": ["plain", "locale", "omp", "home", "memory"]}
PLAIN = {"store": "f64", "layout": "plain", "place": "line", "said": "plain", "talk": "normal", "save": "all", "mask": "bad1", "noise": "sigma", "threads": "1",
         "where": "here", "left": "clean", "env": "plain"}
ENVS = {"plain": {}, "locale": {"LC_ALL": "de_DE.UTF-8", "LANG": "de_DE.UTF-8", "LC_NUMERIC": "de_DE.UTF-8", "TZ": "Pacific/Auckland"},
        "omp": {"OMP_NUM_THREADS": "7", "OMP_DYNAMIC": "true", "OMP_SCHEDULE": "dynamic,1"}, "home": {"HOME": "/nonexistent", "USER": "", "COLUMNS": "3"},
        "memory": {"MALLOC_PERTURB_": "165"}}


def any_way(rng):
    return {a: rng.choice(v) for a, v in ASPECT.items()}


# ------------------------------------------------------------------ files

def store(path, rows, form):
    """Write an image of whole numbers; returns what to call it."""
    ny, nx = len(rows), len(rows[0])
    flat = [v if form in ("f64", "f32") else int(v) for r in rows for v in r]
    fmt, bp, cards, head = "d", -64, [], b""
    st = flat
    if form == "f32":
        fmt, bp = "f", -32
    elif form in ("i16", "i32", "i64"):
        fmt, bp = {"i16": ("h", 16), "i32": ("i", 32), "i64": ("q", 64)}[form]
    elif form == "u16":
        fmt, bp, cards, st = "h", 16, [fits._card("BSCALE", 1), fits._card("BZERO", 32768)], [v - 32768 for v in flat]
    elif form == "scaled":
        fmt, bp, cards, st = "i", 32, [fits._card("BSCALE", "0.5"), fits._card("BZERO", "100.0")], [2 * (v - 100) for v in flat]
    elif form == "cards":
        cards = [fits._card("GAIN", "99.0"), fits._card("EXPTIME", "3.5"), fits._card("CRPIX1", "17.25"), fits._card("CDELT1", "-0.0003"), fits._card("LTV1", "-100.0")]
        cards += [("COMMENT  line %d of many" % i).ljust(80).encode() for i in range(60)] + ["HISTORY  made up".ljust(80).encode()]
    if form == "extension":
        h = b"".join([fits._card("SIMPLE", True), fits._card("BITPIX", 8), fits._card("NAXIS", 0), fits._card("EXTEND", True), fits._card("END")])
        head = h + b" " * (-len(h) % 2880)
        first, cards = fits._card("XTENSION", "'IMAGE   '"), [fits._card("PCOUNT", 0), fits._card("GCOUNT", 1)]
    else:
        first = fits._card("SIMPLE", True)
    h = b"".join([first, fits._card("BITPIX", bp), fits._card("NAXIS", 2), fits._card("NAXIS1", nx), fits._card("NAXIS2", ny)] + cards + [fits._card("END")])
    h += b" " * (-len(h) % 2880)
    d = struct.pack(">%d%s" % (len(st), fmt), *st)
    b = head + h + d + b"\0" * (-len(d) % 2880)
    if form == "gz":
        path += ".gz"
    with (gzip.open if form == "gz" else open)(path, "wb") as f:
        f.write(b)
    return path + ("[1]" if form == "extension" else "")


def number(v, layout, rng):
    s = ("%.4f" % v).rstrip("0").rstrip(".")
    if layout != "numbers":
        return s
    w = rng.randrange(3)
    return "%.7f" % v if w == 0 else "%.8e" % v if w == 1 else "%.5f" % v


def config(p, layout, rng, options=()):
    """The model and options of a configuration file"""
    t, sep = [], "\t" if layout == "tabs" else " "

    def line(*w):
        t.append((" \t " if layout == "tabs" else "  " if layout == "comments" and rng.random() < .3 else "") + ("\t \t" if layout == "tabs" else sep).join(w)
                 + ("   \t" if layout == "tabs" else "   # X0  3.0" if layout == "comments" and w[0] not in ("FUNCTION",) and rng.random() < .5 else ""))
        if layout == "comments" and rng.random() < .5:
            t.append(rng.choice(["", "# a comment", "   # FUNCTION Nothing", "\t", "#"]))
    if layout == "comments":
        t.append("# a model")
    for k, v in options:
        line(k, v)
    for s in p["sets"]:
        for q in s["xy"]:
            line(q["name"], number(q["v"], layout, rng), *limits(q, layout, rng))
        for f in s["fs"]:
            line("FUNCTION", f["name"])
            for q in f["ps"]:
                line(q["name"], number(q["v"], layout, rng), *limits(q, layout, rng))
    return "\n".join(t) + "\n"


def limits(q, layout, rng):
    if q["lim"] == "fixed":
        return ["fixed"]
    if q["lim"]:
        return [number(q["lim"][0], layout, rng) + "," + number(q["lim"][1], layout, rng)]
    return []


# ------------------------------------------------------------------ questions

def problem(k, rng):
    fit = k["prog"] in ("imfit", "multimfit", "imfit-mcmc")
    n = rng.randint(7, 11) if fit else rng.randint(8, 30)
    big = not fit and rng.random() < .3            # enough pixels for threads to get into each other's way
    n = rng.randint(90, 160) if big else n
    p = {"nx": n, "ny": n + rng.randint(-1, 2), "sets": []}
    tight = k["solver"] not in ("none", "LM") or k["prog"] == "imfit-mcmc" or rng.random() < .5

    def par(name, v, free, lo, hi, off):
        return {"name": name, "true": v, "v": round(v + off, 4) if free else v, "lim": "fixed" if not free else (round(lo, 2), round(hi, 2)) if tight else None}
    if not fit:
        for _ in range(rng.choice([1, 1, 2])):
            at = lambda: rng.randint(8, 80) / 4 * (n // 20 if big else 1)
            s = {"xy": [par("X0", at(), True, 0, 0, 0), par("Y0", at(), True, 0, 0, 0)], "fs": []}
            for q in s["xy"]:
                q["lim"] = None
            for _ in range(rng.choice([1, 2])):
                names = [f for f in sorted(fu.FUNCS) if (f not in fu.SLOW or (rng.random() < .15 and not big)) and (k["psf"] or f not in fu.POINTS)]
                fn = fu.draw(rng, names)
                s["fs"].append({"name": fn[0], "ps": [{"name": a, "v": v, "true": v, "lim": None} for a, v in fn[1]]})
            p["sets"].append(s)
    else:
        x, y = n / 2 + rng.choice([-.5, .25, .75]), n / 2 + rng.choice([-.25, .5, .75])
        s = {"xy": [par("X0", x, rng.random() < .6, x - 2, x + 2, .25), par("Y0", y, False, 0, 0, 0)], "fs": []}
        name = rng.choice(["Gaussian", "Exponential", "Sersic", "Moffat"])
        ps = [par("PA", 30.0, False, 0, 0, 0), par("ell", .3, rng.random() < .3, 0, .9, .1)]
        if name == "Sersic":
            ps.append(par("n", 1.5, False, 0, 0, 0))
        ps.append(par("I_e" if name == "Sersic" else "I_0", float(rng.randint(100, 500)), True, 1, 3000, 30))
        ps.append(par({"Gaussian": "sigma", "Exponential": "h", "Sersic": "r_e", "Moffat": "fwhm"}[name], 1.8, True, .3, 9, .3))
        if name == "Moffat":
            ps.append(par("beta", 2.5, False, 0, 0, 0))
        s["fs"].append({"name": name, "ps": ps})
        s["fs"].append({"name": "FlatSky", "ps": [par("I_sky", float(rng.randint(20, 60)), rng.random() < .6, 1, 300, 5)]})
        p["sets"].append(s)
    w = rng.choice([5, 7])
    p["psf"] = [[rng.choice([0, 1, 2, 5]) for _ in range(w)] for _ in range(5)] if k["psf"] else None
    if k["psf"]:
        p["psf"][2][w // 2] = 20
    p["masked"] = rng.random() < .6
    p["opts"] = [(o, q, v) for o, q, v in (("--gain", "GAIN", "2.5"), ("--readnoise", "READNOISE", "1.5"), ("--sky", "ORIGINAL_SKY", "12.5"), ("--ncombined", "NCOMBINED", "2"))
                 if rng.random() < .5]
    p["exp"] = [("", "EXPTIME", "4.0")] if rng.random() < .3 else []
    p["images"] = 2 if k["prog"] in ("multimfit", "makemultimages") else 1
    p["subs"] = rng.random() < .2
    return p


def data(p, d, rng):
    """Noisy images of the true model"""
    t = {"sets": [{"xy": [dict(q, v=q["true"], lim=None) for q in s["xy"]], "fs": [{"name": f["name"], "ps": [dict(q, v=q["true"], lim=None) for q in f["ps"]]} for f in s["fs"]]}
                  for s in p["sets"]]}
    open(os.path.join(d, "t.dat"), "w").write(config(t, "plain", rng))
    a = ["makeimage", "t.dat", "-o", "t.fits", "--ncols", str(p["nx"]), "--nrows", str(p["ny"])]
    if p["psf"]:
        fits.write(os.path.join(d, "tp.fits"), p["psf"])
        a += ["--psf", "tp.fits"]
    rc, out, err = vlib.run(a, d)
    if rc != 0:
        raise ValueError("makeimage: status %s %s" % (rc, err[-200:]))
    rows = fits.read(os.path.join(d, "t.fits"))[0]
    p["data"], p["bad"], p["err"] = [], [], []
    for i in range(p["images"]):
        p["data"].append([[max(1, min(30000, int(round(v + rng.gauss(0, 1) * max(v, 4) ** .5)))) for v in r] for r in rows])
        bad = [[int(p["masked"] and rng.random() < .15) for _ in r] for r in rows]
        for r, b in zip(p["data"][i], bad):
            for x in range(len(r)):
                if b[x]:
                    r[x] = 29999
        p["bad"].append(bad)
        p["err"].append([[rng.choice([2, 4, 8, 16]) for _ in r] for r in rows])


def ask(k, w, p, d, rng, seed):
    """One run; returns the event."""
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "in", "deep"))
    os.makedirs(os.path.join(d, "out"))
    far = w["where"] == "path"
    ip = (lambda n: os.path.join(d, "in", "deep", n)) if far else (lambda n: n)
    op = (lambda n: os.path.join("out", n)) if far else (lambda n: n)
    at = lambda n: os.path.join(d, n)
    put = lambda name, rows, form=None: store(at(ip(name)), rows, form or w["store"]) if far else os.path.relpath(store(at(name), rows, form or w["store"]), d)
    prog, outs = k["prog"], {}
    old = w["left"] == "old"

    def out(key, name):
        outs[key] = op(name)
        if old:
            open(at(op(name)), "w").write("stale " * 4000 if not name.endswith(".fits") else "SIMPLE  =                    T" + " " * 20000)
            if name.endswith(".fits"):
                fits.write(at(op(name)), [[1.0] * 40] * 40)
        return op(name)
    common, cfg = [], []
    if prog in ("imfit", "imfit-mcmc"):
        if w["place"] == "line":
            for o, q, v in p["opts"]:
                common += [o, v]
        else:
            cfg = [(q, v) for o, q, v in p["opts"]]
            rng.shuffle(cfg)
    elif prog == "makeimage":
        if w["place"] == "line":
            common += ["--ncols", str(p["nx"]), "--nrows", str(p["ny"])]
        else:
            cfg = [("NCOLS", str(p["nx"])), ("NROWS", str(p["ny"]))]
            rng.shuffle(cfg)
    flag = {"model": ["--model-errors"], "cash": ["--cashstat"], "mlr": [rng.choice(["--mlr", "--poisson-mlr"]) if w["said"] != "plain" else "--mlr"]}.get(k["stat"], [])
    if prog in ("imfit", "imfit-mcmc", "multimfit"):
        common += flag
        said = []
        if w["mask"] == "good1" and p["masked"]:
            said.append(("--mask-zero-is-bad", "MASK_ZERO_IS_BAD"))
        if k["stat"] == "error" and w["noise"] != "sigma":
            said.append({"variance": ("--errors-are-variances", "ERRORS_ARE_VARIANCES"), "weight": ("--errors-are-weights", "ERRORS_ARE_WEIGHTS")}[w["noise"]])
        if prog != "multimfit" or w["place"] == "line":
            common += [f for f, _ in said]
    mask = lambda b: [[1 - v if w["mask"] == "good1" else v * (7 if w["mask"] == "bad7" else 1) for v in r] for r in b]
    noise = lambda e: [[{"sigma": v, "variance": v * v, "weight": 1.0 / (v * v)}[w["noise"]] for v in r] for r in e]
    sput = lambda name, rows: put(name, noise(rows)) if w["noise"] != "weight" else put(name, noise(rows), "f32" if w["store"] == "f32" else "f64")
    if p["subs"] and prog != "multimfit":
        common.append("--no-subsampling" if prog in ("imfit", "imfit-mcmc", "makeimage") else "--nosubsampling")
    open(at(ip("c.dat")), "w").write(config(p, w["layout"], rng, cfg))
    if w["threads"] != "default":
        common += ["--max-threads", w["threads"]]
    if w["talk"] != "normal" and prog in ("imfit", "multimfit"):
        common.append("--" + w["talk"])
    if prog == "makeimage":
        a = [prog, ip("c.dat"), "-o", out("image", "m.fits")]
        if k["psf"]:
            a += ["--psf", put("p.fits", p["psf"])]
        if w["save"] == "all":
            a += ["--save-fluxes", out("fluxes", "fl.dat"), "--estimation-size", "60", "--output-functions", op("part")]
    elif prog in ("makemultimages", "multimfit"):
        info = ""
        for i in range(2):
            b = []
            if prog == "multimfit":
                b.append("DATA\t" + put("d%d.fits" % i, p["data"][i]))
                if p["masked"]:
                    b.append("MASK\t" + put("k%d.fits" % i, mask(p["bad"][i])))
                if k["stat"] == "error":
                    b.append("ERROR\t" + sput("e%d.fits" % i, p["err"][i]))
                for o, q, v in p["opts"] + p["exp"]:
                    b.append(q + "\t" + v)
                if w["place"] == "file":
                    b += [q for _, q in said]
            else:
                b += ["NCOLS\t%d" % p["nx"], "NROWS\t%d" % p["ny"]]
            if k["psf"]:
                b.append("PSF\t" + put("p%d.fits" % i, p["psf"]))
            if i:
                fx = "\tfixed" if prog == "multimfit" else ""
                b += ["PIXEL_SCALE\t1.0" + fx, "IMAGE_PA\t10.0" + fx, "FLUX_SCALE\t1.0" + fx, "X0\t%g%s" % (p["sets"][0]["xy"][0]["true"], fx), "Y0\t%g%s" % (p["sets"][0]["xy"][1]["true"], fx)]
            if w["said"] != "plain":
                rng.shuffle(b)
            info += "IMAGE_START\n" + "".join(x + "\n" + rng.choice(["", "# so\n", "\n"]) * (w["layout"] == "comments") for x in b) + "\n"
        open(at(ip("i.dat")), "w").write(info)
        if prog == "makemultimages":
            out("image1", "mm_0.fits"), out("image2", "mm_1.fits")
            a = [prog, ip("c.dat"), "--image-info", ip("i.dat"), "-o", op("mm")]
        else:
            if k["solver"] != "none":
                out("params1", "fit_refimage.dat"), out("params2", "fit_image2.dat"), out("images", "fit_imageinfo.dat")
            a = [prog, "-c", ip("c.dat"), "--image-info", ip("i.dat"), "--save-params-root", op("fit")]
    else:
        a = [prog, put("d.fits", p["data"][0]), "-c", ip("c.dat")]
        if p["masked"]:
            a += ["--mask", put("k.fits", mask(p["bad"][0]))]
        if k["stat"] == "error":
            a += ["--noise", sput("e.fits", p["err"][0])]
        if k["psf"]:
            a += ["--psf", put("p.fits", p["psf"])]
        if prog == "imfit-mcmc":
            a += ["-o", op("ch"), "--nchains", "3", "--max-chain-length", "60", "--burnin-length", "20"]
            for i in (1, 2, 3):
                out("chain%d" % i, "ch.%d.txt" % i)
        else:
            if k["solver"] != "none":
                a += ["--save-params", out("params", "fit.dat")]
            if w["save"] == "all":
                a += ["--save-model", out("model", "m.fits"), "--save-residual", out("residual", "r.fits"), "--save-weights", out("weights", "w.fits")]
    if prog in ("imfit", "multimfit"):
        a += {"none": ["--fitstat-only"], "LM": [], "NM": ["--nm"], "DE": ["--de"], "DELHS": ["--de-lhs"]}.get(k["solver"], ["--nlopt", k["solver"]])
        if k["solver"] != "none" and k["boot"]:
            a += ["--bootstrap", str(k["boot"])]
            if w["save"] == "all":
                a += ["--save-bootstrap", out("boot", "boot.dat")]
    if seed:
        a += ["--seed", str(seed)]
    a += common
    if w["said"] != "plain":
        a = vlib.scramble(a, rng)
    th = {"default": 4}.get(w["threads"]) or int(w["threads"])
    rc, o, err = vlib.run(a, d, timeout=120, env=ENVS[w["env"]], threads=th)
    if rc == 124:
        return None
    if rc != 0:
        raise ValueError("%s: status %s %s" % (" ".join(a), rc, (err + o)[-300:]))
    files, near = {}, []
    for key, name in outs.items():
        if not os.path.exists(at(name)):
            continue
        if name.endswith(".fits"):
            rows = fits.read(at(name))[0]
            files[key] = digest(repr(rows))
            if prog in ("makeimage", "makemultimages"):
                near += [clamp(v) for r in rows for v in r][::len(rows) * len(rows[0]) // 1500 + 1]
        else:
            files[key] = digest(words(at(name), key))
    if prog == "makeimage" and w["save"] == "all":
        parts = sorted(f for f in os.listdir(os.path.dirname(at(op("part"))) or d) if f.startswith("part"))
        if len(parts) == sum(len(s["fs"]) for s in p["sets"]):
            files["parts"] = digest(repr([fits.read(at(op(f)))[0] for f in parts]))
    if prog in ("imfit", "multimfit") and w["talk"] == "normal":
        st = re.findall(r"^\s*(?:CHI-SQUARE|CASH STATISTIC|POISSON-MLR STATISTIC|Reduced Chi\^2|AIC)\b.*$", o, re.M)
        if st:
            files["statistic"] = digest("\n".join(st))
            m = re.search(r"STATISTIC = (\S+)|SQUARE = (\S+)", "\n".join(st))
            near = [clamp(float(m.group(1) or m.group(2)))]
    return {"e": "run", "k": dict(k, seed=seed), "w": w, "r": {"files": files, "near": near}}


def clamp(v):
    return int(max(-2e9, min(2e9, round(v * 1000)))) if v == v else -2 * 10**9 - 1


def digest(s):
    return hashlib.sha1(s.encode()).hexdigest()[:12]


def words(path, key):
    """What a text file says, without comments and the names of files"""
    out = []
    for ln in open(path, errors="replace"):
        if key == "fluxes":
            out.append(ln.rstrip() if not ln.startswith("#") else "")
            continue
        ln = ln.split("#")[0].strip() if key in ("params", "params1", "params2", "images") else ln.strip()
        if ln and not ln.startswith("#") and ln.split()[0] not in ("DATA", "MASK", "ERROR", "PSF", "MASK_ZERO_IS_BAD", "ERRORS_ARE_VARIANCES", "ERRORS_ARE_WEIGHTS"):
            out.append(ln)
    return "\n".join(out)


def case(k, ways, rng):
    """k: a question of Runs.tla; ways: [(way, seed)]"""
    return {"k": k, "ways": ways, "seed": rng.randrange(10**9)}


def plan(k, way, rng):
    s = k["seed"]
    ways = [(PLAIN, s)] + ([(way, s)] if way else []) + [(any_way(rng), s) for _ in range(2)]
    if s and rng.random() < .5:
        ways.append((any_way(rng), s + rng.choice([1, 2, 3, 4, 5, 256, 65536, 2**30])))
    if rng.random() < .5:
        ways.append((dict(any_way(rng), threads="1"), s))
    if rng.random() < .3:
        ways.append((PLAIN, s))
    return case(k, ways, rng)


def replay(case, work, i):
    d = os.path.join(work, "q%05d" % i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    rng = random.Random(case["seed"])
    k, ev = case["k"], []
    k = dict(k, id=case["seed"])
    try:
        p = problem(k, rng)
        if k["prog"] in ("imfit", "imfit-mcmc", "multimfit"):
            data(p, d, rng)
        for j, (w, s) in enumerate(case["ways"]):
            e = ask(k, w, p, os.path.join(d, "w%d" % j), random.Random(case["seed"] + j), s)
            if e is not None:
                ev.append(e)
    except Exception as e:
        ev.append({"e": "failed", "err": repr(e)[-500:]})
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(d, ignore_errors=True)
    return {"id": i, "ev": ev, "case": case}
