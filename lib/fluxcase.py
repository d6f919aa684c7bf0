"""Cases of spec/Flux.tla: tables of component fluxes printed and saved by makeimage."""
import os, re, shutil, random, math
import vlib, fits, functions as fu

BACK = ("FlatSky", "TiltedSkyPlane")
CLOSED = ("Exponential", "Gaussian", "Sersic", "PointSource", "PointSourceRot")
LABELS = ["", "", "bulge", "outer disk 2", "x-LABEL y", "ring # old", "a=b"]
ROW = re.compile(r"^(\S+)\s+(-?\d\.\d{4})e([+-]\d+)\s+(---|-?\d+\.\d{4})\s+(\S+?)(?:    (.*))?$")


def component(f, rng, label=None, small=False):
    fn = fu.draw(rng, name=f)
    out, p = [], {}
    for q, k in fu.PARAMS[f]:
        v = dict(fn[1])[q]
        if f in CLOSED:
            if k == "n":
                v = rng.choice([.5, 1, 1.5, 2, 2.5, 3, 4, 5])
            if k in "Ii":
                v *= rng.choice([1, 1, .01, 50])
            v = max(1, round(v * 100)) / 100 if k not in ("ell", "pa") else round(v * 100) / 100
            p[q] = round(v * 100)
        elif k in "Ii" and rng.random() < .15:
            v = -v
        out.append([q, v])
    return {"f": f, "p": p, "par": out, "label": rng.choice(LABELS) if label is None else label}


def case(kinds, zp, rng):
    """kinds: [{kind, label}], zp: {there, v}"""
    n = rng.choice([1, 2, 5, 12, 13, 20, 31])
    if any(k["kind"] in fu.SLOW for k in kinds):
        n = rng.choice([1, 3, 6, 7])
    if all(k["kind"] in BACK + CLOSED for k in kinds) and rng.random() < .1:
        n = 0                       # the default size
    cs = [component(k["kind"], rng, k.get("label")) for k in kinds]
    sets, i = [], 0
    while i < len(cs):
        j = rng.randint(i + 1, len(cs))
        sets.append([i, j, rng.randint(1, 60) / 2, rng.randint(1, 60) / 2])
        i = j
    zp = dict(zp)
    if zp["there"] and rng.random() < .5:
        zp["v"] = rng.choice([0, 1, -12345, 300001, 261500])
    return {"comps": cs, "sets": sets, "zp": zp, "n": n, "mode": rng.choice(["print", "save", "both"]), "image": rng.random() < .4,
            "psf": rng.random() < .3, "threads": rng.choice([1, 1, 2, 4]), "seed": rng.randrange(10**6)}


def text(c):
    return "FUNCTION %s%s\n" % (c["f"], "   # LABEL %s" % c["label"] if c["label"] else "") + \
        "".join("%s\t%r\n" % (q, v) for q, v in c["par"])


def rows(txt):
    """The rows of a table, from its header line."""
    out, on = [], False
    for ln in txt.split("\n"):
        if re.match(r"^(# )?Component +Flux +Magnitude +Fraction +Label *$", ln):
            on, out = True, []
            continue
        if not on or not ln.strip():
            continue
        m = ROW.match(ln.rstrip("\n"))
        if not m:
            break
        man, fr = int(round(float(m.group(2)) * 10**4)), m.group(5)
        if "nan" in fr or "inf" in fr:
            frac = [0, 5]
        elif "e" in fr:
            a, b = fr.split("e")
            frac = [int(round(float(a) * 1000)), 3 - int(b)]
        else:
            frac = [int(round(float(fr) * 10**5)), 5]
        out.append({"name": m.group(1), "label": m.group(6) or "", "flux": [man, int(m.group(3)) if man else -3],
                    "mag": {"there": m.group(4) != "---", "v": 0 if m.group(4) == "---" else int(round(float(m.group(4)) * 10**4))},
                    "frac": frac})
        if m.group(1) == "Total":
            break
    return out


def replay(case, work, i):
    d = os.path.join(work, "r%05d" % i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    rng = random.Random(case["seed"])
    ev = []
    try:
        n = case["n"]
        for j, c in enumerate(case["comps"]):
            k, img = 0, []
            if c["f"] not in BACK + CLOSED:
                open(os.path.join(d, "one.dat"), "w").write("X0 %r\nY0 %r\n" % (n / 2, n / 2) + text(dict(c, label="")))
                o = os.path.join(d, "one.fits")
                if os.path.exists(o):
                    os.remove(o)
                vlib.run(["makeimage", "one.dat", "-o", "one.fits", "--ncols", str(n), "--nrows", str(n)], d, timeout=120)
                img = fits.read(o)[0]
                s = sum(abs(v) for r in img for v in r)
                if not s < 1e30:
                    raise ValueError("not finite")
                k = max(-9, min(60, int(math.floor(math.log10(1.5e9 / s))))) if s > 0 else 3
                img = [[int(round(v * 10**k)) for v in r] for r in img]
            ev.append({"e": "add", "c": {"f": c["f"], "p": c["p"], "label": c["label"]}, "k": k, "img": img})
        open(os.path.join(d, "c.dat"), "w").write(
            "".join("X0 %r\nY0 %r\n" % (x, y) + "".join(text(c) for c in case["comps"][a:b]) for a, b, x, y in case["sets"]))
        args = ["makeimage", "c.dat", "--max-threads", str(case["threads"])]
        if n:
            args += ["--estimation-size", str(n)]
        if case["zp"]["there"]:
            args += ["--zero-point", "%.4f" % (case["zp"]["v"] / 10**4)]
        if case["mode"] != "save":
            args += ["--print-fluxes"]
        if case["mode"] != "print":
            args += ["--save-fluxes", "fluxes.txt"]
        if case["image"]:
            args += ["--ncols", str(rng.randint(1, 9)), "--nrows", str(rng.randint(1, 9)), "-o", "out.fits"]
        else:
            args += ["--nosave"]
        if case["psf"] or any(c["f"] in fu.POINTS for c in case["comps"]):
            fits.write(os.path.join(d, "psf.fits"), [[1, 2, 1, 0], [0, 5, 3, 1], [1, 1, 1, 1], [0, 2, 0, 1], [0, 0, 1, 0]])
            args += ["--psf", "psf.fits"]
        rc, out, err = vlib.run(vlib.scramble(args, rng), d, threads=case["threads"], timeout=200)
        tabs = []
        if case["mode"] != "save":
            tabs.append(rows(out))
        if case["mode"] != "print":
            tabs.append(rows(open(os.path.join(d, "fluxes.txt")).read()))
        if rc != 0 or not all(tabs):
            raise ValueError("exit status %s, tables of %s rows" % (rc, [len(t) for t in tabs]))
        s = sum(abs(r["flux"][0]) * 10.0**(r["flux"][1] - 4) for r in tabs[0][:-1])
        k = max(-9, min(60, int(math.floor(math.log10(0.9e9 / s))))) if s > 0 else 0
        ev.append({"e": "table", "rows": tabs[0], "zp": case["zp"], "k": k})
        ev += [{"e": "again", "rows": t} for t in tabs[1:]]
        if case["mode"] == "both" and case["seed"] % 3 == 0:
            args[args.index("fluxes.txt")] = "nowhere/fluxes.txt"
            rc, out, err = vlib.run(vlib.scramble(args, rng), d, threads=case["threads"], timeout=200)
            ev.append({"e": "nofile", "status": rc})
    except Exception as e:
        ev.append({"e": "failed", "err": repr(e)[-300:]})
    shutil.rmtree(d, ignore_errors=True)
    return {"id": i, "ev": ev, "case": case}
