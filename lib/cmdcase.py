"""Command lines: random generation, the real parser (cmd_rec) and the real makeimage."""
import os, re, json, random, shutil
import vlib, fits


def W(n, dash="--"):
    return {"d": 1, "name": n, "eq": 0, "val": "", "raw": dash + n}


def E(n, v, dash="--"):
    return {"d": 1, "name": n, "eq": 1, "val": v, "raw": dash + n + "=" + v}


def A(v):
    return {"d": 0, "name": "", "eq": 0, "val": "", "raw": v}


def word(raw):
    """A word as the documentation reads it, from its text."""
    if not raw.startswith("-"):
        return A(raw)
    n = raw.lstrip("-")
    if "=" in n[1:-1]:
        k = n.index("=", 1)
        return {"d": 1, "name": n[:k], "eq": 1, "val": n[k + 1:], "raw": raw}
    return {"d": 1, "name": n, "eq": 0, "val": "", "raw": raw}


SMALL = [("alpha", "flag", ["a", "alpha"]), ("xray", "opt", ["x", "xray"]), ("q", "queue", ["q"])]
NAMES = ["a", "b", "mask", "psf", "no-x", "overpsf", "overpsf_scale", "zero-point", "n", "ncols", "nrows", "output", "o", "x1", "x2", "save"]
VALS = ["v", "file.fits", "im.fits[1:20,3:40]", "1.5", "-3", "-b", "--mask", "a b", "x=y", "", "w=1=2", "#c", "10:20,30:40", "é", "\"q\""]


def rdefs(rng):
    names = rng.sample(NAMES, rng.randrange(2, 9))
    r = []
    while names:
        n = [names.pop()]
        if names and rng.random() < .4:
            n.append(names.pop())
        r.append((n[0], rng.choice(["flag", "opt", "opt", "queue"]), n))
    return r


def rwords(rng, defs, n):
    """Mostly well-formed words for these definitions."""
    ws = []
    while len(ws) < n:
        u = rng.random()
        if u < .22:
            ws.append(A(rng.choice([v for v in VALS if not v.startswith("-")])))
        elif u < .25:
            ws.append(W(rng.choice(NAMES)))
        elif u < .26:
            ws.append(W("", rng.choice(["-", "--"])))
        else:
            _, kind, names = rng.choice(defs)
            nm, dash = rng.choice(names), rng.choice(["-", "--", "--"])
            if kind == "flag":
                ws.append(W(nm, dash) if rng.random() < .9 else E(nm, "1", dash))
            elif rng.random() < .4:
                ws.append(E(nm, rng.choice([v for v in VALS if v]), dash))
            else:
                ws.append(W(nm, dash))
                if rng.random() < .95:
                    v = rng.choice(VALS)
                    ws.append(word(v))
    return ws


def kinds(defs):
    return [{"name": n, "id": i, "kind": k} for i, k, ns in defs for n in ns]


def parse(work, cases):
    """cases: (defs, strict, words) -> traces"""
    lines = []
    for defs, strict, ws in cases:
        lines.append("\t".join(["1" if strict else "0"] + ["%s:%s:%s" % (k[0] if k != "opt" else "o", ns[0], ns[1] if len(ns) > 1 else "")
                                                          for _, k, ns in defs] + ["|"] + [w["raw"] for w in ws]))
    os.makedirs(work, exist_ok=True)
    rc, out, err = vlib.run(["cmd_rec"], work, 300, inp="\n".join(lines) + "\n")
    got = [json.loads(x) for x in out.split("\n") if x.startswith("{")]
    if len(got) != len(cases):
        raise vlib.CheckError("cmd_rec answered %d of %d" % (len(got), len(cases)))
    r = []
    for i, ((defs, strict, ws), g) in enumerate(zip(cases, got)):
        ev = {"e": "parsed", "crash": g.get("crash", 0), "st": 0 if g.get("st", 1) == 0 else 1, "empty": g.get("empty", 0), "args": g.get("args", []),
              "flags": [{"name": n, "set": s} for n, s in g.get("flags", [])],
              "opts": [{"name": n, "set": s, "all": a, "first": f} for n, s, a, f in g.get("opts", [])]}
        r.append({"id": i, "mi": 0, "strict": strict, "defs": kinds(defs), "ws": ws, "num": [], "refs": [], "cf": {}, "ev": [ev],
                  "case": {"defs": defs, "strict": strict, "ws": ws}})
    return r


def parse_one(work, t):
    k = t["case"]
    r = parse(work, [(k["defs"], k["strict"], k["ws"])])[0]
    return dict(r, id=t["id"])


# ------------------------------------------------------------------------------------------------ makeimage

def meaning(v):
    if re.fullmatch(r"\d{1,8}", v) and int(v) > 0:
        return {"cls": "pos", "n": int(v)}
    if re.fullmatch(r"[-+]?\d{1,8}", v):
        return {"cls": "int", "n": int(v)}
    if re.fullmatch(r"[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?", v):
        return {"cls": "real", "n": 0}
    return {"cls": "word", "n": 0}


REFS = {"ref.fits": (9, 8), "tall.fits": (3, 12), "psf.fits": (3, 3)}
CFGS = [{"name": "cfg", "nc": 0, "nr": 3, "levels": [1000, 2000]}, {"name": "cfg", "nc": 6, "nr": 5, "levels": [2500]},
        {"name": "cfg", "nc": 0, "nr": 0, "levels": [500, 3000, 7000]}]


def rmi(rng):
    """A random makeimage command line."""
    pos = lambda: rng.choice(["3", "5", "8", "11", "2", "17"])
    odd = lambda: rng.choice(["0", "-2", "2.5", "x", "1e1", "3x", "nan"])
    val = {"ncols": lambda: pos() if rng.random() < .93 else odd(), "nrows": lambda: pos() if rng.random() < .93 else odd(),
           "estimation-size": lambda: rng.choice(["10", "25", "40"]) if rng.random() < .9 else odd(), "timing": lambda: "2" if rng.random() < .9 else odd(),
           "max-threads": lambda: rng.choice("1234") if rng.random() < .9 else odd(), "debug": lambda: "1" if rng.random() < .9 else odd(),
           "zero-point": lambda: rng.choice(["25", "-2.5", "26.24", "0", "1e1"]) if rng.random() < .85 else "zp",
           "refimage": lambda: rng.choice(["ref.fits", "tall.fits", "none.fits"]), "psf": lambda: rng.choice(["psf.fits", "psf.fits", "psf.fits", "none.fits"]),
           "output": lambda: rng.choice(["out.fits", "a=b.fits", "my image.fits", "-dash.fits"]), "output-functions": lambda: rng.choice(["f_", "fn", "single"]),
           "save-fluxes": lambda: rng.choice(["fl.txt", "fluxes"])}
    wt = ["ncols"] * 5 + ["nrows"] * 5 + ["output"] * 4 + ["refimage"] * 3 + ["output-functions"] * 2 + ["psf", "zero-point", "estimation-size", "save-fluxes", "timing", "max-threads", "debug"]
    fl = ["no-normalize", "no-subsampling", "nosave", "print-fluxes", "no-subsampling"]
    groups = [[A("cfg")]] if rng.random() < .95 else []
    if rng.random() < .6:
        for n in ("ncols", "nrows"):
            groups.append([E(n, val[n]())] if rng.random() < .5 else [W(n), A(val[n]())])
    for _ in range(rng.randrange(0, 6)):
        if rng.random() < .25:
            groups.append([W(rng.choice(fl))] if rng.random() < .9 else [W(rng.choice(["help", "h", "v", "version", "list-functions", "list-parameters", "sample-config", "noscale", "nosve", "ncol"]))])
        else:
            n = rng.choice(wt)
            v = val[n]()
            nm = rng.choice(["o", "output"]) if n == "output" else n
            dash = rng.choice(["-", "--"])
            groups.append([E(nm, v, dash)] if rng.random() < .5 and not v.startswith("-") else [W(nm, dash), word(v)])
    rng.shuffle(groups)
    ws = [w for g in groups for w in g]
    if rng.random() < .06:
        ws.append(A(rng.choice(["other", "extra"])))
    if rng.random() < .04:
        ws.append(W(rng.choice(["ncols", "o", "psf"])))
    return ws, rng.randrange(len(CFGS))


def level(rows):
    lo, hi = min(map(min, rows)), max(map(max, rows))
    return int(round((lo + hi) / 2 * 1000)) if hi - lo < 2e-3 else -1


def rowsof(text):
    if "Component" not in text:
        return []
    r = []
    for ln in text[text.index("Component"):].split("\n")[1:]:
        m = re.match(r"^(\S+)\s+-?(\d\.\d+e[-+]\d+|nan|inf)\s", ln)
        if m:
            r.append(m.group(1))
    return r


def run_mi(work, cases):
    """cases: (words, configuration number) -> traces"""
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)

    def one(k):
        ws, ci = cases[k]
        d = os.path.join(work, "m%05d" % k)
        os.makedirs(d)
        cfg = dict(CFGS[ci])
        with open(os.path.join(d, "cfg"), "w") as f:
            if cfg["nc"]:
                f.write("NCOLS %d\n" % cfg["nc"])
            if cfg["nr"]:
                f.write("NROWS %d\n" % cfg["nr"])
            f.write("X0 1\nY0 1\n" + "".join("FUNCTION FlatSky\nI_sky %s\n" % (v / 1000) for v in cfg["levels"]))
        cfg["fns"] = ["FlatSky"] * len(cfg["levels"])
        for n, (nc, nr) in REFS.items():
            fits.write(os.path.join(d, n), [[.25 if (x, y) != (1, 1) else 2. for x in range(nc)] for y in range(nr)])
        before = set(os.listdir(d))
        rc, out, err = vlib.run(["makeimage"] + [w["raw"] for w in ws], d, 60)
        ev = {"e": "run", "crash": 1 if rc < 0 or rc >= 124 and rc != 255 else 0, "ok": 1 if rc == 0 else 0, "msg": 1 if (out + err).strip() else 0,
              "info": 1 if rc not in (0, 124) and rc > 0 and not err.strip() and "ERROR" not in out else 0, "images": [], "texts": [], "rows": [], "frows": [], "est": 0}
        for n in sorted(set(os.listdir(d)) - before):
            try:
                rows, _ = fits.read(os.path.join(d, n))[:2]
                ev["images"].append([n, len(rows[0]), len(rows), level(rows)])
            except Exception:
                ev["texts"].append(n)
                ev["frows"] = rowsof(open(os.path.join(d, n), errors="replace").read())
        ev["rows"] = rowsof(out)
        m = re.search(r"on (\d+) x (\d+) image", out)
        ev["est"] = int(m.group(1)) if m and m.group(1) == m.group(2) else 0
        shutil.rmtree(d)
        vals = sorted(set([w["raw"] for w in ws] + [w["val"] for w in ws]))
        return {"id": k, "mi": 1, "strict": 1, "defs": [], "ws": ws, "num": [[v, meaning(v)] for v in vals], "refs": [[n, [s[0], s[1], (s[0] * s[1] + 7) // 4]] for n, s in sorted(REFS.items())],
                "cf": cfg, "ev": [ev], "case": {"ws": ws, "ci": ci}}
    return vlib.pmap(one, range(len(cases)))


def mi_one(work, t):
    return dict(run_mi(work, [(t["case"]["ws"], t["case"]["ci"])])[0], id=t["id"])


# ------------------------------------------------------------------------------------------------ imfit

IMGS = {"data.fits": (4, 3), "mask.fits": (4, 3), "err.fits": (4, 3), "wide.fits": (3, 4), "psf.fits": (3, 3)}
CONFS = ["imfit_config.dat", "c.dat", "dir=1.dat"]
FITOPT = ["save-params", "save-model", "save-residual", "save-weights", "save-model", "save-residual"]


def rim(rng):
    odd = lambda: rng.choice(["-2", "x", "3x", "nan", "1.2.3", "--mask"])
    pos = lambda: rng.choice(["2", "3", "17"]) if rng.random() < .88 else rng.choice(["0", "2.5", odd()])
    real = lambda: rng.choice(["2", "1.5", "0.25", ".5", "4.", "1e1"]) if rng.random() < .88 else odd()
    val = {"gain": real, "readnoise": real, "exptime": real, "ftol": lambda: rng.choice(["1e-6", "0.001", "1e-4"]) if rng.random() < .85 else odd(),
           "sky": lambda: rng.choice(["3", "-2", "2.5"]) if rng.random() < .88 else "x", "ncombined": pos, "max-threads": pos, "seed": pos,
           "bootstrap": lambda: rng.choice(["2", "3"]) if rng.random() < .9 else pos(), "save-bootstrap": lambda: "boot.txt",
           "mask": lambda: rng.choice(["mask.fits"] * 5 + ["none.fits", "wide.fits"]), "noise": lambda: rng.choice(["err.fits"] * 5 + ["none.fits", "wide.fits"]),
           "psf": lambda: rng.choice(["psf.fits"] * 5 + ["none.fits"]), "config": lambda: rng.choice(["c.dat", "dir=1.dat", "c.dat", "none.dat"]),
           "save-params": lambda: rng.choice(["pars.dat", "p=1.dat"]), "save-model": lambda: rng.choice(["m.fits", "my model.fits"]),
           "save-residual": lambda: "r.fits", "save-weights": lambda: "w.fits", "nlopt": lambda: rng.choice(["NM", "SBPLX", "COBYLA", "BOBYQA", "nm", "LM"])}
    flat = ["errors-are-variances", "errors-are-weights", "no-normalize", "no-subsampling", "quiet", "silent", "printimage"]
    groups = [[A("data.fits")]] if rng.random() < .96 else []
    only = rng.random() < .35
    if only:
        groups.append([W(rng.choice(["fitstat-only", "chisquare-only"]))])
    u = rng.random()
    groups += [[W(x)] for x in ([], ["nm"], ["de"], ["de-lhs"], [], ["nm"])[int(u * 6)]]
    stat = rng.choice([[], [], [], ["cashstat"], ["mlr"], ["poisson-mlr"], ["model-errors"]])
    groups += [[W(x)] for x in stat]
    names = [rng.choice(FITOPT) for _ in range(rng.randrange(3))]
    for _ in range(rng.randrange(0, 5)):
        names.append(rng.choice(["gain", "readnoise", "exptime", "sky", "ncombined", "ftol", "max-threads", "seed", "config", "mask", "noise", "psf", "bootstrap", "save-bootstrap"]))
    if u > .66 and u < .83:
        names.append("nlopt")
    if "bootstrap" in names and rng.random() < .6:
        names.append("save-bootstrap")
    for n in names:
        v = val[n]()
        nm = rng.choice(["c", "config"]) if n == "config" else n
        dash = rng.choice(["-", "--"])
        groups.append([E(nm, v, dash)] if rng.random() < .5 and not v.startswith("-") else [W(nm, dash), word(v)])
    for _ in range(rng.randrange(0, 3)):
        groups.append([W(rng.choice(flat))])
    if rng.random() < .08:
        groups.append([W(rng.choice(["help", "h", "version", "list-functions", "sample-config", "no-scale", "conf", "nn"]))])
    rng.shuffle(groups)
    ws = [w for g in groups for w in g]
    if rng.random() < .05:
        ws.append(A("wide.fits"))
    if rng.random() < .04:
        ws.append(W(rng.choice(["config", "gain", "save-model"])))
    return ws


SOLVERS = [("Levenberg-Marquardt", "LM"), ("Differential Evolution", "DE"), ("Nelder-Mead Simplex", "NM")]


def run_im(work, cases):
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)

    def one(k):
        ws = cases[k]
        d = os.path.join(work, "i%05d" % k)
        os.makedirs(d)
        for i, n in enumerate(CONFS):
            with open(os.path.join(d, n), "w") as f:
                f.write("X0 1 fixed\nY0 1 fixed\nFUNCTION FlatSky\nI_sky %d  1,30\n" % (7 + i))
        for n, (nc, nr) in IMGS.items():
            v = {"mask.fits": lambda x, y: 0, "err.fits": lambda x, y: 2, "psf.fits": lambda x, y: 1}.get(n, lambda x, y: 10 + (x * 7 + y * 3) % 5)
            fits.write(os.path.join(d, n), [[v(x, y) for x in range(nc)] for y in range(nr)])
        before = set(os.listdir(d))
        rc, out, err = vlib.run(["imfit"] + [w["raw"] for w in ws], d, 100)
        ev = {"e": "imfit", "crash": 1 if rc < 0 or rc >= 124 and rc != 255 else 0, "ok": 1 if rc == 0 else 0, "msg": 1 if (out + err).strip() else 0,
              "info": 1 if rc not in (0, 124) and rc > 0 and not err.strip() and "ERROR" not in out else 0, "images": [], "texts": [], "solver": "none"}
        m = re.search(r"(CHI-SQUARE|CASH|POISSON-MLR)( STATISTIC)? = ", out)
        ev["stat"] = m.group(1) if m else "none"
        for n in sorted(set(os.listdir(d)) - before):
            try:
                rows = fits.read(os.path.join(d, n))[0]
                ev["images"].append([n, len(rows[0]), len(rows)])
            except Exception:
                ev["texts"].append(n)
                m = re.search(r"Algorithm: (.*?): ", open(os.path.join(d, n), errors="replace").read())
                if m:
                    ev["solver"] = dict(SOLVERS).get(m.group(1), m.group(1).split()[-1].strip("()"))
        shutil.rmtree(d)
        vals = sorted(set([w["raw"] for w in ws] + [w["val"] for w in ws]))
        num = [[v, meaning(v)] for v in vals]
        for v, m in num:
            if m["cls"] == "real" and v.startswith("-"):
                m["n"] = -1
        return {"id": k, "mi": 2, "strict": 1, "defs": [], "ws": ws, "num": num, "refs": [[n, list(s)] for n, s in sorted(IMGS.items())],
                "cf": CONFS, "ev": [ev], "case": {"ws": ws}}
    return vlib.pmap(one, range(len(cases)))


def im_one(work, t):
    return dict(run_im(work, [t["case"]["ws"]])[0], id=t["id"])
