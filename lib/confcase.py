"""Configuration files: abstract lines (spec/Config.tla) rendered as text in many layouts, read by the real programs."""
import os, json, random, shutil
import vlib, fits

ARITY = {"BrokenExponential": 7, "BrokenExponential2D": 7, "BrokenExponentialDisk3D": 9, "Core-Sersic": 8, "DattathriPeanut3D": 12,
         "EdgeOnDisk": 5, "EdgeOnRing": 5, "EdgeOnRing2Side": 6, "Exponential": 4, "ExponentialDisk3D": 6,
         "Exponential_GenEllipse": 5, "FerrersBar2D": 6, "FerrersBar3D": 8, "FlatBar": 8, "FlatSky": 1, "Gaussian": 4,
         "GaussianRing": 5, "GaussianRing2Side": 6, "GaussianRing3D": 8, "GaussianRingAz": 6, "ModifiedKing": 6,
         "ModifiedKing2": 6, "Moffat": 5, "PointSource": 1, "PointSourceRot": 2, "Sersic": 5, "Sersic_GenEllipse": 6,
         "TiltedSkyPlane": 3}
SKIES = ["FlatSky", "FlatSky", "TiltedSkyPlane"]


def W(k, n=0, a=0, b=0, s=""):
    return {"k": k, "n": n, "a": a, "b": b, "s": s}


def num(n):
    return W("num", n)


def word(s):
    return W("word", s=s)


def L(h, name="", t=(), lab=""):
    return {"h": h, "name": name, "t": list(t), "lab": lab}


# ------------------------------------------------------------------------------ text
def dec(n, rng):
    """n thousandths as text."""
    s = "%s%d.%03d" % ("-" if n < 0 else "", abs(n) // 1000, abs(n) % 1000)
    short = s.rstrip("0").rstrip(".")
    r = rng.random()
    if r < 0.45:
        return short
    if r < 0.6:
        return s
    if r < 0.7 and n % 1000 == 0:
        return short + "."
    if r < 0.8 and abs(n) < 1000 and n and "." in short:
        return short.replace("0.", ".", 1)
    if r < 0.88:
        return "%.9e" % (n / 1000.0)
    if r < 0.94 and n >= 0:
        return "+" + short
    return "%sE0" % short


JUNK = ["X0 3", "Y0 4 fixed", "FUNCTION FlatSky", "# LABEL", "comment", "1,2", "fixed", "# more # hashes", "GAIN 7", "12 13",
        "a very long remark about nothing in particular " * 4]
NAMES = ["I_0", "PA", "ell", "x0", "y0", "function", "fixed", "I_sky", "p", "param", "m_x", "m_y", "n", "r_e", "label", "OPTION",
         "aX0", "theFUNCTION", "3", "I.0"]


def tok(w, rng):
    if not w["s"]:
        w["s"] = dec(w["n"], rng) if w["k"] == "num" else dec(w["a"], rng) + "," + dec(w["b"], rng) if w["k"] == "lim" else w["k"]
    return w["s"]


def gap(rng):
    return rng.choice([" ", " ", "  ", "\t", "\t ", "     "])


def render(l, rng):
    lead = rng.choice(["", "", "", " ", "\t", "   "])
    trail = rng.choice(["", "", "", " ", "\t", "  "])
    if l["h"] == "blank":
        r = rng.random()
        if r < 0.4:
            return lead + trail
        return lead + "#" + rng.choice(["", " "]) + (rng.choice(JUNK) if rng.random() < 0.8 else "") + trail
    head = {"XS": "OPTIONAL_PARAMS_START", "XE": "OPTIONAL_PARAMS_END"}.get(l["h"], l["h"])
    if l["h"] == "word":
        head = l["name"]
        if head in ("NCOLS", "NCOLUMNS", "NROWS") and l["t"] and l["t"][0]["k"] == "num" and l["t"][0]["n"] % 1000 == 0:
            l["t"][0]["s"] = str(l["t"][0]["n"] // 1000)       # a plain integer
    s = lead + head + "".join(gap(rng) + tok(w, rng) for w in l["t"])
    if l["h"] == "FUNCTION" and l["lab"]:
        return s + gap(rng) + "# LABEL" + rng.choice([" ", "  ", "\t"]) + l["lab"] + trail
    if rng.random() < 0.3:
        c = rng.choice(JUNK)
        if l["h"] == "FUNCTION":
            c = c.replace("LABEL", "label")
        return s + rng.choice([" ", "\t", ""]) + "#" + rng.choice(["", " "]) + c + trail
    return s + trail


def text(lines, rng):
    return "\n".join(render(l, rng) for l in lines) + rng.choice(["\n", "\n", "", "\n\n"])


# --------------------------------------------------------------------- random files
def rnum(rng):
    return rng.choice([rng.randint(-60, 60) * 1000, rng.randint(-60000, 60000), rng.randint(0, 99) * 10, 0])


def rparam(rng):
    v = rnum(rng)
    r = rng.random()
    if r < 0.5:
        return [num(v)]
    if r < 0.7:
        return [num(v), W("fixed")]
    a, b = v - rng.choice([0, 1, 1000, rng.randint(0, 50000)]), v + rng.choice([0, 1, 500, rng.randint(0, 50000)])
    if a == b:
        b += 1
    return [num(v), W("lim", 0, a, b)]


LABELS = ["disk", "main disk", "FUNCTION FlatSky", "X0 3", "b", "a # b", "LABEL 2", "1,2", "tab\there", "trailing fixed"]
IOPTS = ["GAIN", "READNOISE", "EXPTIME", "NCOMBINED", "ORIGINAL_SKY"]


def rlines(rng, skies=True):
    ls = []

    def blanks():
        while rng.random() < 0.25:
            ls.append(L("blank"))
    blanks()
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        n = rng.choice(IOPTS + ["NCOLS", "NROWS", "NROWS", "NCOLS", "OTHER", "x0"])
        v = rng.randint(1, 9) * 1000
        if n in ("GAIN", "READNOISE", "EXPTIME", "ORIGINAL_SKY"):
            v = rng.randint(1, 9999)
        ls.append(L("word", n, [num(v) if n not in ("OTHER",) else word("abc")]))
        blanks()
    for _ in range(rng.choice([1, 1, 2, 3])):
        ls.append(L("X0", "X0", rparam(rng)))
        blanks()
        ls.append(L("Y0", "Y0", rparam(rng)))
        blanks()
        for _ in range(rng.choice([1, 1, 2, 3])):
            f = rng.choice(SKIES) if skies else rng.choice(sorted(ARITY))
            ls.append(L("FUNCTION", "FUNCTION", [word(f)], rng.choice(["", "", rng.choice(LABELS)])))
            blanks()
            if not skies and rng.random() < 0.1:
                ls.append(L("XS"))
                for _ in range(rng.randint(0, 2)):
                    ls.append(L("word", rng.choice(["method", "mode"]), [rng.choice([word("linear"), W("num", 3000, s="3"), word("a,b")])]))
                ls.append(L("XE"))
            for _ in range(ARITY[f]):
                ls.append(L("word", rng.choice(NAMES), rparam(rng)))
                blanks()
    blanks()
    return ls


def corrupt(ls, rng):
    """One change to one line; the specification decides whether the result is still valid."""
    ls = json.loads(json.dumps(ls))
    i = rng.randrange(len(ls))
    k = rng.choice(["drop", "dup", "swap", "value", "limit", "words", "name", "head", "short", "single", "cut", "move"])
    l = ls[i]
    if k == "drop":
        del ls[i]
    elif k == "dup":
        ls.insert(i, json.loads(json.dumps(l)))
    elif k == "swap" and i + 1 < len(ls):
        ls[i], ls[i + 1] = ls[i + 1], ls[i]
    elif k == "move":
        x = ls.pop(i)
        ls.insert(rng.randint(0, len(ls)), x)
    elif k == "value" and l["t"]:
        l["t"][0] = rng.choice([word("abc"), word("1.2.3"), word("3,4"), word("fixed"), word("--2"), word("12abc"), num(0), num(-3000), word("nan")])
    elif k == "limit" and l["h"] in ("word", "X0", "Y0") and l["t"]:
        v = l["t"][0]["n"]
        l["t"][1:] = [rng.choice([W("lim", 0, v + 1, v + 1000), W("lim", 0, v - 1000, v - 1), W("lim", 0, v + 5, v - 5), W("lim", 0, v, v),
                                  word("1,"), word("5"), word("1,2,3"), word("a,b"), word("1:2"), word("Fixed"), word("FIXED"), word("1,b"),
                                  word("fixed,"), word("nan,nan")])]
    elif k == "words" and l["h"] in ("word", "X0", "Y0", "FUNCTION"):
        l["t"] = l["t"][:-1]
    elif k == "name" and l["h"] == "FUNCTION":
        l["t"] = [word(rng.choice(["flatsky", "FlatSkies", "Sersik", "FUNCTION", "3"]))]
    elif k == "head":
        l["h"], l["name"] = rng.choice([("X0", "X0"), ("Y0", "Y0"), ("FUNCTION", "FUNCTION"), ("word", "what")])
    elif k == "short":
        ls = ls[:i]
    elif k == "single":
        ls.insert(i, L("word", rng.choice(["q", "7", "X"]), []))
    elif k == "cut":
        del ls[i:i + rng.randint(1, 3)]
    for l in ls:
        if l["h"] == "FUNCTION":
            for w in l["t"]:
                tok(w, rng)
    return ls


# ------------------------------------------------------------------------- recording
SENT = -2000000000


def q(x):
    x = float(x)
    if x != x or abs(x) > 2e6:
        return SENT
    r = x * 1000
    return int(round(r)) if abs(r - round(r)) < 1e-6 else SENT + 1


def parse_all(files, d):
    """The real parser on many files, in chunks; a crash is attributed by running the chunk file by file."""
    res = {}

    def chunk(fs):
        rc, out, err = vlib.run(["conf_rec"] + fs, d, timeout=120)
        lines = [x for x in out.split("\n") if x.startswith("{\"full\"")]
        if rc == 0 and len(lines) == 2 * len(fs):
            for i, f in enumerate(fs):
                res[f] = [json.loads(lines[2 * i]), json.loads(lines[2 * i + 1])]
        elif len(fs) == 1:
            res[fs[0]] = []
        else:
            for f in fs:
                chunk([f])
    parts = [files[i:i + 60] for i in range(0, len(files), 60)]
    vlib.pmap(chunk, parts)
    return res


def ev_parsed(r):
    e = {"e": "parsed", "full": r["full"], "ok": 1 if r["st"] == 0 else 0, "opts": r["opts"], "fns": r["fns"], "labs": r["labs"],
         "starts": r["starts"], "xs": [[[k, v] for k, v in m.items()] for m in r["xs"]], "found": r["found"], "ps": []}
    for p in r["ps"]:
        x = {"v": q(p[0]), "fixed": 0, "lim": 0, "lo": 0, "hi": 0}
        if len(p) > 1:
            x.update(fixed=p[1], lim=1 if p[2] and p[3] else (2 if p[2] or p[3] else 0), lo=q(p[4]), hi=q(p[5]))
        e["ps"].append(x)
    return e


def run_prog(prog, d, nc, nr):
    """A program on c.dat in its own directory; output files requested."""
    if prog == "imfit":
        a = ["imfit", "data.fits", "-c", "c.dat", "--fitstat-only", "--save-model", "out.fits", "--noise", "one.fits"]
        fits.write(os.path.join(d, "data.fits"), [[0] * nc for _ in range(nr)])
        fits.write(os.path.join(d, "one.fits"), [[1] * nc for _ in range(nr)])
    else:
        a = ["makeimage", "c.dat", "-o", "out.fits"] + (["--ncols", str(nc)] if nc else []) + (["--nrows", str(nr)] if nr else [])
    before = set(os.listdir(d))
    rc, out, err = vlib.run(a, d, timeout=120)
    new = sorted(set(os.listdir(d)) - before)
    e = {"e": "run", "prog": prog, "nc": nc, "nr": nr, "ok": 1 if rc == 0 else 0,
         "crash": 1 if rc < 0 or rc in (124, 134, 136, 137, 139) else 0, "files": len(new),
         "msg": 1 if ("ERROR" in err or "***" in err or "ERROR" in out) else 0, "out": []}
    if rc == 0:
        try:
            e["out"] = [[int(round(v * 1000)) if abs(v) < 2e6 else SENT for v in r] for r in fits.read(os.path.join(d, "out.fits"))[0]]
        except Exception:
            e["ok"], e["files"] = 2, len(new)
    for f in new:
        os.remove(os.path.join(d, f))
    return e


def runs(i, text_, d, progs, seed):
    rng = random.Random("%s/%d/run" % (seed, i))
    r = []
    for prog in progs:
        dd = os.path.join(d, "r%d_%s" % (i, prog))
        os.makedirs(dd, exist_ok=True)
        with open(os.path.join(dd, "c.dat"), "w") as f:
            f.write(text_)
        nc, nr = rng.randint(1, 5), rng.randint(1, 5)
        if prog == "makeimage" and rng.random() < 0.5:
            nc = 0
        if prog == "makeimage" and rng.random() < 0.5:
            nr = 0
        r.append(run_prog(prog, dd, nc, nr))
        shutil.rmtree(dd, ignore_errors=True)
    return r


def record(work, cases, progs, seed, texts=None, ids=None):
    """cases: lists of abstract lines; progs(i): the programs to run on case i.  Returns traces."""
    d = os.path.join(work, "conf")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    ids = ids or list(range(len(cases)))
    texts = texts or [text(ls, random.Random("%s/%d" % (seed, i))) for i, ls in zip(ids, cases)]
    names = ["f%05d.dat" % i for i in ids]
    for n, t in zip(names, texts):
        with open(os.path.join(d, n), "w") as f:
            f.write(t)
    parsed = parse_all(names, d)

    def one(k):
        evs = [{"e": "line", "l": l} for l in cases[k]]
        p = parsed.get(names[k], [])
        if len(p) != 2:
            evs.append({"e": "parser crashed"})
        evs += [ev_parsed(r) for r in p]
        pr = list(progs(ids[k]))
        evs += runs(ids[k], texts[k], d, pr, seed)
        return {"id": ids[k], "ev": evs, "lenient": 0, "cfg": texts[k], "case": {"lines": cases[k], "progs": pr, "seed": seed}}
    r = vlib.pmap(one, range(len(cases)))
    shutil.rmtree(d, ignore_errors=True)
    return r


def record_one(work, t):
    return record(work, [t["case"]["lines"]], lambda i: t["case"]["progs"], t["case"]["seed"], [t["cfg"]], [t["id"]])[0]
