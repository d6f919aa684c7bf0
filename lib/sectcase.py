"""Cases of spec/Section.tla: files, extensions and sections given to imfit, imfit-mcmc and makeimage."""
import os, random, shutil, gzip
import vlib, fits, imagecase as ic

PIX = {"data": lambda i, x, y: 3000 * i + 100 * x + y,
       "mask": lambda i, x, y: int((x + 2 * y + i) % 5 == 0),
       "noise": lambda i, x, y: 1 + ((3 * x + 5 * y + 7 * i) % 11),
       "psf": lambda i, x, y: ((2 * x + 3 * y + i) % 4) + (4 if (x, y) == (2, 3) else 1)}
OPT = {"mask": "--mask", "noise": "--noise", "psf": "--psf"}


def ref_text(ref, rng):
    t = "[%d]" % ref["ext"] if ref["ext"] >= 0 else ""
    if ref["sec"]:
        one = lambda r: "*" if not r else "%d:%d" % tuple(r)
        t += "[%s,%s%s]" % (one(ref["xs"]), rng.choice(["", "", "", " "]), one(ref["ys"]))
    return t


def put(d, name, ev, role, rng):
    fn = name + rng.choice([".fits", ".fits", ".fits.gz"])
    fits.write_hdus(os.path.join(d, fn), ev["file"], PIX[role])
    return fn + ref_text(ev["ref"], rng)


def config(sets, mode, rng, lims):
    t = []
    for s in sets:
        for n, k in (("X0", "x"), ("Y0", "y")):
            v = s[k] / 2.0
            lo, hi = round(v - rng.choice([0.25, 0.5, 1.25]), 2), round(v + rng.choice([0.5, 0.75, 2]), 2)
            t.append("%s  %g %s" % (n, v, "  %g,%g" % (lo, hi) if mode in ("fit", "mcmc") else ""))
            lims.append((lo, hi))
        for f in s["fns"]:
            name, ps = ic.realise(f, rng)
            t.append("FUNCTION " + name)
            t += ["%s\t%s\t%s" % (n, v, "fixed" if mode in ("fit", "mcmc") else "") for n, v in ps]
    return "\n".join(t) + "\n"


def m(v):
    return ic.q(v)


def centres(vals, case, lims):
    """the centre coordinates among a list of parameter values"""
    out, i, k = [], 0, 0
    for s in case["ev"][0]["sets"]:
        for j in (0, 1):
            out.append({"lo": m(lims[k][0]), "hi": m(lims[k][1]), "v": m(vals[i + j])})
            k += 1
        i += 2 + sum(ic.NPAR[f["real_name"]] for f in s["fns"])
    return out


def rows(path):
    return [[float(w) for w in ln.split()] for ln in open(path) if ln.strip() and not ln.startswith("#")]


def image(path):
    if path.endswith(".gz"):
        with gzip.open(path) as f, open(path[:-3], "wb") as g:
            g.write(f.read())
        path = path[:-3]
    return fits.read(path)[0]


def replay(case, work, i):
    d = os.path.join(work, "r%05d" % i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    rng = random.Random(case["seed"])
    mode, evs, lims = case["mode"], case["ev"], []
    for s in evs[0]["sets"]:
        for f in s["fns"]:
            f["real_name"] = {"spike": "Gaussian", "const": "Gaussian", "tilt": "TiltedSkyPlane", "flat": "FlatSky", "ptsrc": "PointSource"}[f["k"]]
            if f["k"] in ("spike", "const"):
                f["real"] = "Gaussian"
    with open(os.path.join(d, "c.dat"), "w") as f:
        f.write(config(evs[0]["sets"], mode, rng, lims))
    zip_ = rng.choice(["", "", ".gz"])
    O = {k: "out_%s.fits%s" % (k, zip_) for k in ("model", "resid", "weights")}
    words, nover, dat, noise = [], 0, None, False
    for e in evs[1:]:
        if e["e"] == "data":
            dat = put(d, "data", e, "data", rng)
        elif e["e"] in OPT:
            words += [OPT[e["e"]], put(d, e["e"], e, e["e"], rng)]
            noise = noise or e["e"] == "noise"
        elif e["e"] == "region":
            r = e["region"]
            words += ["--overpsf", put(d, "opsf%d" % nover, e, "psf", rng), "--overpsf_scale", str(r["s"]),
                      "--overpsf_region", "%d:%d,%d:%d" % (r["x1"], r["x2"], r["y1"], r["y2"])]
            nover += 1
    if mode == "size":
        args = ["makeimage", "c.dat", "--refimage", dat, "-o", "out_model.fits"]
        O = {"model": "out_model.fits"}
    elif mode == "mcmc":
        args = ["imfit-mcmc", dat, "-c", "c.dat", "-o", "out_chain", "--max-chain-length", "12", "--burnin-length", "6", "--gelman-evals", "5",
                "--seed", str(rng.randint(1, 99)), "--no-subsampling", "--max-threads", "1"] + words
    else:
        args = ["imfit", dat, "-c", "c.dat", "--no-subsampling", "--max-threads", "1", "--save-model", O["model"], "--save-residual", O["resid"],
                "--save-weights", O["weights"]] + words
        if mode == "stat":
            args += ["--fitstat-only"]
        else:
            args += ["--save-params", "out_best.dat"] + rng.choice([[], ["--nm"], ["--de", "--seed", "3"], ["--nlopt", "BOBYQA"], ["--bootstrap", "2", "--save-bootstrap", "out_boot.dat", "--seed", "5"]])
    if mode != "size":
        args += ["--errors-are-weights"] if noise else ["--readnoise", "3"]
    rc, out, err = vlib.run(vlib.scramble(args, rng), d, timeout=120)
    left = [f for f in os.listdir(d) if f.startswith("out_")]
    ev = [dict(e) for e in evs]
    ev[0]["sets"] = [dict(s, fns=[{k: v for k, v in f.items() if k not in ("real", "real_name")} for f in s["fns"]]) for s in evs[0]["sets"]]
    try:
        if rc != 0:
            ev.append({"e": "stopped", "rc": rc, "crash": int(rc < 0), "files": len(left)})
        else:
            ev.append({"e": "ran", "rc": rc})
            if mode == "size":
                im = image(os.path.join(d, O["model"]))
                ev.append({"e": "size", "w": len(im[0]), "h": len(im)})
            elif mode == "mcmc":
                n = 0
                for f in sorted(left):
                    for r in rows(os.path.join(d, f))[::3]:
                        ev.append({"e": "centres", "v": centres(r, case, lims)})
                        n += 1
                if not n:
                    raise ValueError("no chains")
            else:
                im = {k: image(os.path.join(d, O[k])) for k in O}
                if mode == "stat":
                    ev += [{"e": "model", "out": ic.qimg(im["model"])}, {"e": "resid", "out": ic.qimg(im["resid"])}]
                else:
                    ev.append({"e": "sum", "out": ic.qimg([[a + b for a, b in zip(p, q)] for p, q in zip(im["model"], im["resid"])])})
                    vals = [float(ln.split()[1]) for ln in open(os.path.join(d, "out_best.dat")) if ln.strip() and ln[0] not in "#" and not ln.startswith("FUNCTION")
                            and not ln.startswith(("GAIN", "READ", "ORIG", "EXP", "NCOMB"))]
                    ev.append({"e": "centres", "v": centres(vals, case, lims)})
                    if "out_boot.dat" in left:
                        ev += [{"e": "centres", "v": centres(r, case, lims)} for r in rows(os.path.join(d, "out_boot.dat"))]
                if noise:
                    ev.append({"e": "weights", "out": ic.qimg(im["weights"])})
    except Exception as e:
        ev.append({"e": "failed", "err": repr(e)[-300:]})
    shutil.rmtree(d, ignore_errors=True)
    return {"id": i, "ev": ev, "case": case, "args": " ".join(args)}


# --------------------------------------------------------------------------- random cases

def image_hdu(rng, lo=4, hi=12):
    return {"kind": "image", "w": rng.randint(lo, hi), "h": rng.randint(lo, hi)}


def rsec(rng, n, off=False):
    r = rng.random()
    if r < .2:
        return []
    a = rng.randint(1, n)
    b = rng.randint(a, n)
    if b == a and n > 1 and rng.random() < .8:
        return rsec(rng, n, off)
    return [a, b + n] if off else [a, b]


def rfile(rng, image=None):
    """a file with a good image somewhere, and where it is"""
    k = rng.choice([0, 0, 0, 1, 1, 2])
    f = []
    for i in range(k):
        kind = rng.choice(["image", "image", "null", "line", "cube"] + (["table"] if i else []))
        f.append({"kind": kind, "w": rng.randint(2, 9), "h": rng.randint(2, 9)})
    f.append(image or image_hdu(rng))
    if rng.random() < .25:
        f.append({"kind": rng.choice(["image", "table", "cube"]), "w": 5, "h": 4})
    return f, k


def rref(rng, f, k, bad=0.0):
    ext = k if k or rng.random() < .3 else -1
    ref = {"ext": ext, "sec": int(rng.random() < .75), "xs": [], "ys": []}
    off = False
    if rng.random() < bad:
        w = rng.choice(["ext", "off", "none"])
        ref["ext"] = rng.choice([-1, 0, 1, 2, 3]) if w == "ext" else -1 if w == "none" else ext
        off = w == "off"
    if ref["sec"]:
        ref["xs"], ref["ys"] = rsec(rng, f[k]["w"], off), rsec(rng, f[k]["h"])
    return ref


def span(f, k, ref):
    a = lambda r, n: r if r else [1, n]
    return a(ref["xs"], f[k]["w"]) + a(ref["ys"], f[k]["h"])


def rcase(rng, bad=.1, mode=None):
    mode = mode or rng.choice(["stat"] * 6 + ["fit", "fit", "fit", "mcmc", "size"])
    f, k = rfile(rng)
    ref = rref(rng, f, k, bad)
    x1, x2, y1, y2 = span(f, k, ref)
    x2, y2 = min(x2, f[k]["w"]), min(y2, f[k]["h"])
    sets = []
    for _ in range(rng.choice([1, 1, 2])):
        fns = [ic.rfn(rng, ["tilt", "tilt", "flat", "spike", "spike", "const"]) for _ in range(rng.randint(1, 3))]
        s = {"x": 2 * rng.randint(x1 - 1, x2 + 1), "y": 2 * rng.randint(y1 - 1, y2 + 1)}
        if rng.random() < .3:
            s["x"] += 1
        sets.append(dict(s, fns=fns))
    if mode in ("fit", "mcmc"):
        sets[0]["fns"].append({"k": "tilt", "a": 2000, "mx": rng.choice([-40, 60, 110]), "my": rng.choice([-30, 2, 20])})
    evs = [{"e": "sets", "sets": sets}, {"e": "data", "file": f, "ref": ref}]
    if mode != "size":
        for role in ("mask", "noise"):
            if rng.random() < .6:
                r = rng.random()
                if r < .5:          # the same section of a file of the same kind
                    g, gr = [dict(h) for h in f], dict(ref)
                elif r < .9:        # an image of just the right size, or a section of the right size elsewhere
                    w, h = x2 - x1 + 1, y2 - y1 + 1
                    if rng.random() < .5:
                        g, j = rfile(rng, {"kind": "image", "w": w, "h": h})
                        gr = {"ext": j if j else -1, "sec": 0, "xs": [], "ys": []}
                    else:
                        g, j = rfile(rng, {"kind": "image", "w": w + rng.randint(0, 4), "h": h + rng.randint(0, 3)})
                        a, b = rng.randint(1, g[j]["w"] - w + 1), rng.randint(1, g[j]["h"] - h + 1)
                        gr = {"ext": j if j else -1, "sec": 1, "xs": [a, a + w - 1], "ys": [b, b + h - 1]}
                else:
                    g, j = rfile(rng)
                    gr = rref(rng, g, j, bad)
                evs.append({"e": role, "file": g, "ref": gr})
        if rng.random() < .4:
            g, j = rfile(rng, {"kind": "image", "w": rng.randint(1, 5), "h": rng.randint(1, 5)})
            evs.append({"e": "psf", "file": g, "ref": rref(rng, g, j, bad / 2)})
        if mode == "stat":
            for _ in range(rng.choice([0, 0, 1, 2])):
                g, j = rfile(rng, {"kind": "image", "w": rng.randint(1, 4), "h": rng.randint(1, 4)})
                a, b = rng.randint(max(1, x1 - 2), x2), rng.randint(max(1, y1 - 2), y2)
                evs.append({"e": "region", "file": g, "ref": rref(rng, g, j, bad / 3),
                            "region": {"x1": a, "x2": a + rng.randint(0, 3), "y1": b, "y2": b + rng.randint(0, 3), "s": rng.choice([2, 3])}})
    return {"ev": evs, "mode": mode, "seed": rng.randrange(10**6)}
