"""Histories of imfit-mcmc runs (complete, killed, continued) recorded for TraceChainFiles."""
import os, re, shutil, time, signal, subprocess, random
import vlib, fits

FUNCS = [
    ("FlatSky", [("I_sky", 80, 40, 160)]),
    ("Gaussian", [("PA", 30, 0, 90), ("ell", .25, 0, .75), ("I_0", 60, 10, 200), ("sigma", 1.5, .5, 4)]),
    ("Exponential", [("PA", 40, 0, 90), ("ell", .5, .125, .75), ("I_0", 40, 5, 100), ("h", 2, .5, 5)]),
]


def setup(rng):
    """a random model with its options; -> dict"""
    w, h = rng.randint(5, 8), rng.randint(5, 8)
    sec = None
    big = (w, h)
    off = (0, 0)
    if rng.random() < .35:
        off = (rng.randint(0, 3), rng.randint(1, 3))
        big = (w + off[0] + rng.randint(0, 2), h + off[1] + rng.randint(0, 2))
        sec = "[%d:%d,%d:%d]" % (off[0] + 1, off[0] + w, off[1] + 1, off[1] + h)
    nsets = rng.choice([1, 1, 2])
    pars, text = [], ""
    info = rng.choice(["", "", "gain", "gainrn"])
    for s in range(nsets):
        fs = [rng.choice(FUNCS)] if rng.random() < .6 else [FUNCS[0], FUNCS[rng.choice([1, 2])]]
        for nm, o, size in (("X0", off[0], w), ("Y0", off[1], h)):
            v = o + 1 + size / 2.0
            pars.append([nm, v, v - 1.25, v + 1.5])
        for k, (fn, ps) in enumerate(fs):
            pars += [[("F", fn) if i == 0 else None, p] for i, p in enumerate(ps)]
    # flatten with random fixing
    out, free = [], 0
    for p in pars:
        if len(p) == 2:
            out.append({"fn": p[0][1] if p[0] else None, "name": p[1][0], "v": p[1][1], "lo": p[1][2], "hi": p[1][3]})
        else:
            out.append({"fn": None, "name": p[0], "v": p[1], "lo": p[2], "hi": p[3]})
    for q in out:
        q["fixed"] = rng.random() < .4
    if all(q["fixed"] for q in out):
        out[-1]["fixed"] = False
    opts, files = [], {}
    stat = rng.choice(["chi", "chi", "cash", "mlr", "model"])
    opts += {"chi": [], "cash": ["--cashstat"], "mlr": ["--poisson-mlr"], "model": ["--model-errors"]}[stat]
    if rng.random() < .4:
        opts += ["--gain", str(rng.choice([1.5, 4]))]
    if rng.random() < .3:
        opts += ["--readnoise", str(rng.choice([1, 5]))]
    if rng.random() < .3:
        opts += ["--sky", str(rng.choice([10, 30.5]))]
    if rng.random() < .2:
        opts += ["--ncombined", "2"]
    files["d.fits"] = [[float(rng.randint(60, 110) + (60 if (x - w / 2) ** 2 + (y - h / 2) ** 2 < 5 else 0)) for x in range(big[0])] for y in range(big[1])]
    if rng.random() < .3:
        files["m.fits"] = [[1.0 if rng.random() < .2 else 0.0 for x in range(big[0])] for y in range(big[1])]
        opts += ["--mask", "m.fits" + (sec or "")] + (["--mask-zero-is-bad"] if rng.random() < .2 else [])
    if stat == "chi" and rng.random() < .3:
        files["n.fits"] = [[float(rng.randint(4, 12)) for x in range(big[0])] for y in range(big[1])]
        opts += ["--noise", "n.fits" + (sec or "")] + rng.choice([[], ["--errors-are-variances"]])
    if rng.random() < .25:
        files["p.fits"] = [[0.0, 1, 0], [1, 4, 2], [0, 1, 1]]
        opts += ["--psf", "p.fits"]
    if rng.random() < .5:
        opts += ["--no-subsampling"]
    return {"pars": out, "opts": opts, "files": files, "sec": sec, "root": rng.choice(["ch", "ch", "mcmc_out", "out/chain"]), "burn": rng.choice([0, 5, 30, 5000]), "default": rng.random() < .3}


def config(s, values=None):
    t = ""
    for i, q in enumerate(s["pars"]):
        if q["fn"]:
            t += "FUNCTION %s\n" % q["fn"]
        if values is None:
            t += "%s %r %s\n" % (q["name"], q["v"], "fixed" if q["fixed"] else "%r,%r" % (q["lo"], q["hi"]))
        else:
            t += "%s %s\n" % (q["name"], values[i])
    return t


def rhist(rng):
    """a random history: list of [kind, n, m, extra]"""
    n = rng.choice([3, 3, 4, 5])
    ev = []
    for _ in range(rng.randint(1, 4)):
        k = rng.choice(["fresh", "append", "append", "freshkilled", "appendkilled", "remove"]) if ev else rng.choice(["fresh", "fresh", "freshkilled", "append"])
        m = rng.choice([1, 2, 5, 11, 23, 47, 61])
        ev.append({"e": k, "n": n if rng.random() < .8 else rng.choice([3, 4, 5]), "m": m, "cut": rng.randint(0, m), "extra": rng.randint(0, n - 1)})
    return ev


def from_model(ev, stretch):
    """a history of MCChainFiles; generation numbers are stretched"""
    out = []
    for e in ev:
        x = {"e": "append" if e["e"] == "refused" else e["e"], "n": e["n"], "m": e["m"] * stretch}
        if "killed" in e["e"]:
            g, k = min(e["lens"]), sum(v > min(e["lens"]) for v in e["lens"])
            x["cut"], x["extra"] = g * stretch, k
            if x["cut"] == x["m"]:
                x["extra"] = 0
        out.append(x)
    return out


def path(wd, c):
    return os.path.join(wd, "%s.%d.txt" % (wd_root(wd), c))


def wd_root(wd):
    with open(os.path.join(wd, "root")) as f:
        return f.read()


def read(wd, c):
    try:
        with open(path(wd, c)) as f:
            return f.read()
    except OSError:
        return None


def datalines(text):
    return [ln for ln in (text or "").split("\n") if ln.strip() and ln[0] != "#"]


def truncate(wd, c, keep):
    """remove all data rows after the first `keep` ones (and what follows them)"""
    t = read(wd, c).split("\n")
    out, k = [], 0
    for ln in t:
        if ln.strip() and ln[0] != "#":
            if k == keep:
                break
            k += 1
        out.append(ln)
    else:
        return
    with open(path(wd, c), "w") as f:
        f.write("\n".join(out) + "\n")


def sigkill(args, wd, n, delay):
    """a run that is really killed; -> rows in each file, or None if it was too early or nearly over"""
    e = {"PATH": "/usr/bin:/bin", "HOME": wd, "LC_ALL": "C", "OMP_NUM_THREADS": "1"}
    p = subprocess.Popen([os.path.join(vlib.BIN, vlib.PROGRAM[args[0]])] + args[1:], cwd=wd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
    t0 = time.time()
    try:
        # wait until there is something to lose
        while time.time() - t0 < 20 and p.poll() is None and not all(os.path.exists(path(wd, c)) and os.path.getsize(path(wd, c)) > 0 for c in range(1, n + 1)):
            time.sleep(.002)
        time.sleep(delay / 1000.0)
    finally:
        p.kill()
        p.wait()
    lens = [len(datalines(read(wd, c))) for c in range(1, n + 1)]
    if p.returncode != -signal.SIGKILL or max(lens) > 400:
        return None
    return lens


def bigsetup(rng):
    """an image large enough that a run lasts"""
    s = setup(rng)
    while s["sec"] or "p.fits" in s["files"] or "m.fits" in s["files"] or "n.fits" in s["files"]:
        s = setup(rng)
    s["files"]["d.fits"] = [[float(90 + (x * 7 + y * 3) % 11) for x in range(400)] for y in range(400)]
    # large errors keep the statistic within the integers of TLC
    s["files"]["n.fits"] = [[1000.0] * 400 for y in range(400)]
    s["opts"] = ["--noise", "n.fits"] + (["--no-subsampling"] if rng.random() < .5 else [])
    return s


def replay(case, wd, ident):
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(os.path.join(wd, "out"))
    s = case["setup"]
    with open(os.path.join(wd, "root"), "w") as f:
        f.write(s["root"])
    for k, v in s["files"].items():
        fits.write(os.path.join(wd, k), v)
    with open(os.path.join(wd, "c.dat"), "w") as f:
        f.write(config(s))
    nv = len(s["pars"])
    nfree = sum(not q["fixed"] for q in s["pars"])
    # log-likelihoods are compared with each other by number
    keys, table, liks, value, exact = {}, [], {}, [], {}
    frac = {}

    def key(words, lik):
        k = tuple(words)
        if k not in keys:
            keys[k] = len(keys) + 1
            table.append(lik)
        return keys[k]
    base = ["imfit-mcmc", "d.fits" + (s["sec"] or ""), "-c", "c.dat"] + (["--burnin-length", str(s["burn"])] if s["burn"] > 0 else [])
    if s["root"] != "mcmc_out":
        base += ["-o", s["root"]]
    burn = s["burn"] if s["burn"] > 0 else 5000
    base += s["opts"]
    ev = []

    def parse(lines):
        rows, cells = [], []
        for ln in lines:
            w = ln.split()
            if len(w) != nv + 6:
                raise ValueError("row: " + ln)
            xs = [float(x) for x in w[:nv]]
            lk = float(w[nv])
            if not abs(lk) < 1e300:
                raise ValueError("likelihood " + w[nv])
            # (a continued run computes the likelihood again from the parameters as written: equal to ten digits or so)
            if w[nv] not in liks:
                liks[w[nv]] = next((i for i, v in value if abs(v - lk) <= 1e-6 * max(1, abs(v))), len(liks) + 1)
                value.append((liks[w[nv]], lk))
            k = key(w[:nv], liks[w[nv]])
            exact.setdefault(k, lk)
            rows.append({"key": k, "x": [round(x * 1000) for x in xs], "lik": liks[w[nv]], "burn": int(w[nv + 1]),
                         "cr": [round(float(x) * 10**6) for x in w[nv + 2:nv + 5]], "acc": int(w[nv + 5])})
        return rows

    def cellsof(n):
        out = []
        for c in range(1, n + 1):
            ls = datalines(read(wd, c))
            w = ls[0].split() if ls else None
            out.append([1 if q["fixed"] or not w else min(n, 1 + int((float(w[j]) - q["lo"]) / (q["hi"] - q["lo"]) * n)) for j, q in enumerate(s["pars"])])
        return out
    seed = case["seed"]
    try:
        for i, e in enumerate(case["hist"]):
            if e["e"] == "remove":
                p = path(wd, e["n"])
                if os.path.exists(p):
                    os.remove(p)
                    ev.append({"e": "remove", "n": e["n"]})
                continue
            n = e["n"]
            if s["default"]:
                n = max(3, nfree)
            before = {c: read(wd, c) for c in range(1, 30)}
            counts = [len(datalines(before[c])) if before[c] is not None else 0 for c in range(1, n + 1)]
            common = min(counts)
            app = e["e"].startswith("append")
            killed = e["e"].endswith("killed")
            m = e["m"]
            lens = None
            if killed:
                cut = e["cut"] if not app else max(0, e["cut"] - common)
                ex = e["extra"]
                lens = [cut + 1 if c < ex else cut for c in range(n)]
                m = max(lens[0], 1) + (common if app else 0)
            args = base + ["--max-chain-length", str(m), "--seed", str(seed + i)] + ([] if s["default"] else ["--nchains", str(n)]) + (["--append"] if app else [])
            if e["e"] == "sigkill":
                lens = sigkill(args, wd, n, e["delay"])
                if lens is None:
                    break
                new = [parse(datalines(read(wd, c))) for c in range(1, n + 1)]
                ev.append({"e": "freshkilled", "n": n, "m": m, "rc": 0, "othersSame": 1, "prefix": 1, "rows": new, "cells": cellsof(n)})
                continue
            rc, out, err = vlib.run(args, wd, timeout=120)
            after = {c: read(wd, c) for c in range(1, 30)}
            others = all(after[c] == before[c] for c in after if c > n)
            if rc != 0 and not app:
                ev.append({"e": "failed", "rc": rc})
                break
            if rc != 0:
                same = all(after[c] == before[c] for c in after)
                ev.append({"e": "refused", "n": n, "m": m, "rc": rc, "crash": 1 if rc < 0 or rc > 255 or rc in (134, 139) else 0, "othersSame": 1 if same else 0})
                continue
            prefix = 1
            if app:
                prefix = 1 if all(before[c] is not None and after[c] is not None and after[c].startswith(before[c]) for c in range(1, n + 1)) else 0
            if killed:
                for c in range(1, n + 1):
                    truncate(wd, c, lens[c - 1] + (counts[c - 1] if app else 0))
            new = []
            for c in range(1, n + 1):
                ls = datalines(read(wd, c))
                new.append(parse(ls[counts[c - 1]:] if app else ls))
            ev.append({"e": e["e"], "n": n, "m": m, "rc": rc, "othersSame": 1 if others else 0, "prefix": prefix, "rows": new,
                       "cells": [] if app else cellsof(n)})
            if e["e"] == "fresh" and case.get("twin"):
                a2 = list(args)
                if "-o" in a2:
                    a2[a2.index("-o") + 1] = "tw"
                else:
                    a2 += ["-o", "tw"]
                vlib.run(a2, wd, timeout=120)
                same = 1
                for c in range(1, n + 1):
                    try:
                        with open(os.path.join(wd, "tw.%d.txt" % c)) as f:
                            if datalines(f.read()) != datalines(read(wd, c)):
                                same = 0
                    except OSError:
                        same = 0
                ev.append({"e": "twin", "same": same})
    except ValueError as x:
        ev.append({"e": "unreadable", "why": str(x)[:100]})
    # the statistic of some of the rows
    rng = random.Random(case["seed"])
    ks = sorted(keys, key=lambda k: keys[k])
    for k in rng.sample(ks, min(len(ks), case.get("oracles", 2))):
        with open(os.path.join(wd, "o.dat"), "w") as f:
            f.write(config(s, k))
        rc, out, err = vlib.run(["imfit", "d.fits" + (s["sec"] or ""), "-c", "o.dat", "--fitstat-only"] + s["opts"], wd)
        m = re.search(r"(?:CHI-SQUARE|CASH STATISTIC|POISSON-MLR STATISTIC) = (\S+)", out)
        try:
            st = float(m.group(1))
            unit = 100.0
            l2 = 2 * exact[keys[k]]
            while abs(st) * unit > 5e8 or abs(l2) * unit > 5e8:
                unit /= 10
            ev.append({"e": "oracle", "lik2": round(l2 * unit), "stat": round(st * unit), "tol": 3 + int(abs(st) * unit * 3e-7)})
        except (AttributeError, ValueError):
            ev.append({"e": "nostat", "rc": rc})
    shutil.rmtree(wd, ignore_errors=True)
    return {"id": ident, "case": case, "model": {"vars": [{"lock": 1 if q["fixed"] else 0, "lo": round((q["v"] if q["fixed"] else q["lo"]) * 1000), "hi": round((q["v"] if q["fixed"] else q["hi"]) * 1000)}
                                                           for q in s["pars"]], "burn": burn}, "table": table, "ev": ev}
