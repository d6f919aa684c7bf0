"""Worlds of spec/Files.tla made of real files, in a scratch directory, and runs of the real programs in them."""
import os, shutil, random, struct, hashlib
import vlib, fits

BROKEN = ["missing", "short", "header", "text", "empty", "cube", "line", "nothing", "zero", "noext", "directory", "table", "outside"]
IMAGES = {"imfit": ["mask", "noise", "psf", "overpsf"], "imfit-mcmc": ["mask", "noise", "psf", "overpsf"], "makeimage": ["psf", "overpsf", "reference"],
          "makemultimages": ["psf", "overpsf2", "psf2", "reference"], "multimfit": ["mask", "noise", "psf", "mask2", "noise2", "psf2", "overpsf2"]}
NEEDED = {"imfit": ["config", "data"], "imfit-mcmc": ["config", "data"], "makeimage": ["config"], "makemultimages": ["config", "info"],
          "multimfit": ["config", "info", "data", "data2"]}
OUTPUTS = {"imfit": ["params", "model", "residual", "weights", "boot"], "imfit-mcmc": ["chains"], "makeimage": ["image", "parts"],
           "makemultimages": ["images"], "multimfit": ["fits", "boot"]}
N = 10


def header(*cards):
    b = b"".join(fits._card(k, v) for k, v in cards) + fits._card("END")
    return b + b" " * (-len(b) % 2880)


def image(path, rows, cond, rng):
    """An image in some condition; returns what to call it."""
    if cond == "missing":
        return path
    if cond == "directory":
        os.makedirs(path, exist_ok=True)
        open(os.path.join(path, "x"), "w").close()
        return path
    if cond in ("text", "empty"):
        with open(path, "w") as f:
            f.write("no image\n" * 300 if cond == "text" else "")
        return path
    fits.write(path, rows)
    ny, nx = len(rows), len(rows[0])
    b = open(path, "rb").read()
    two = (("SIMPLE", True), ("BITPIX", -64), ("NAXIS", 2), ("NAXIS1", nx), ("NAXIS2", ny))
    if cond == "short":
        b = b[:2880 + rng.randrange(0, nx * ny * 8 - 8)]
    elif cond == "header":
        b = b[:rng.randrange(80, 400)]
    elif cond == "cube":
        b = header(*two[:2], ("NAXIS", 3), *two[3:], ("NAXIS3", 2)) + b"\0" * 5760
    elif cond == "line":
        b = header(*two[:2], ("NAXIS", 1), ("NAXIS1", nx * ny)) + b[2880:]
    elif cond == "nothing":
        b = header(("SIMPLE", True), ("BITPIX", 8), ("NAXIS", 0), ("EXTEND", True)) + b.replace(b"SIMPLE  =                    T", b"XTENSION= 'IMAGE   '          ", 1)
    elif cond == "zero":
        w = rng.randrange(3)
        b = header(*two[:3], ("NAXIS1", nx if w == 0 else 0), ("NAXIS2", ny if w == 1 else 0))
    elif cond == "table":
        b += header(("XTENSION", "'BINTABLE'"), ("BITPIX", 8), ("NAXIS", 2), ("NAXIS1", 8), ("NAXIS2", 3), ("PCOUNT", 0), ("GCOUNT", 1), ("TFIELDS", 1),
                    ("TFORM1", "'1D      '")) + b"\0" * 2880
    with open(path, "wb") as f:
        f.write(b)
    return path + {"noext": "[%d]" % rng.randint(1, 7), "table": "[1]", "outside": "[%d:%d,%d:%d]" % (nx - 1, nx + 9, 1, ny)}.get(cond, "")


def text(path, t, cond):
    if cond == "directory":
        os.makedirs(path, exist_ok=True)
    elif cond != "missing":
        with open(path, "w") as f:
            f.write({"ok": t, "text": "no model\n# nothing\n here\n", "empty": ""}[cond])
    return path


MODEL = ("X0 5 1,10\nY0 5 1,10\nFUNCTION Gaussian\nPA 0 fixed\nell 0 fixed\nI_0 50 1,300\nsigma 2 0.5,6\nFUNCTION FlatSky\nI_sky 100 1,300\n")


def look(paths):
    return {p: (hashlib.sha1(open(p, "rb").read()).hexdigest(), os.stat(p).st_mtime_ns) if os.path.isfile(p) else None for p in paths}


def run(world, d, n, rng):
    """One run in the world; outputs keep their names from run to run."""
    i = os.path.join(d, "in%d" % n)
    os.makedirs(i)
    at = lambda s: os.path.join(i, s)
    ins, prog = world["inputs"], world["prog"]
    dat = [[int(100 + 50 * 2.718 ** (-((x - 4) ** 2 + (y - 4) ** 2) / 8.0) + rng.randint(-9, 9)) for x in range(N)] for y in range(N)]
    rows = {"data": dat, "data2": dat, "reference": dat}
    for r in ("mask", "mask2"):
        rows[r] = [[int(rng.random() < .1) for _ in range(N)] for _ in range(N)]
    for r in ("noise", "noise2"):
        rows[r] = [[rng.randint(5, 12) for _ in range(N)] for _ in range(N)]
    for r in ("psf", "psf2", "overpsf", "overpsf2"):
        rows[r] = [[0, 1, 0], [1, 5, 1], [0, 1, 0]]
    for r, c in ins.items():
        if c == "size":
            a, b = rng.choice([(N, N - 1), (N + 1, N), (N * 2, N // 2), (1, N * N)])
            rows[r] = [[1] * a for _ in range(b)]
    img = {r: image(at(r + ".fits"), rows[r], c, rng) for r, c in ins.items() if r in rows}
    size = "" if "reference" in ins else "NCOLS %d\nNROWS %d\n" % (N, N)
    cfg = text(at("config.dat"), (size if prog == "makeimage" else "") + MODEL, ins["config"])
    over = ["--overpsf_scale", "2", "--overpsf_region", "2:4,3:6"]

    def opt(name, r):
        return [name, img[r]] + (over if r == "overpsf" else []) if r in img else []
    outs, a = {}, None

    def out(o, name, *files):
        bad = world["outputs"].get(o) == "bad"
        p = os.path.join(d, "absent" if bad else "out", name)
        outs[o] = (p, [os.path.join(d, "absent" if bad else "out", f) for f in files or [name]])
        return p
    if prog == "imfit":
        a = [prog, img["data"], "-c", cfg] + opt("--mask", "mask") + opt("--noise", "noise") + opt("--psf", "psf") + opt("--overpsf", "overpsf")
        for o in world["outputs"]:
            a += [{"boot": "--save-bootstrap"}.get(o, "--save-" + o), out(o, o + (".fits" if o in ("model", "residual", "weights") else ".dat"))]
        if "boot" in world["outputs"]:
            a += ["--bootstrap", "3"]
    elif prog == "imfit-mcmc":
        a = [prog, img["data"], "-c", cfg] + opt("--mask", "mask") + opt("--noise", "noise") + opt("--psf", "psf") + opt("--overpsf", "overpsf")
        a += ["-o", out("chains", "ch", "ch.1.txt", "ch.2.txt", "ch.3.txt"), "--nchains", "3", "--max-chain-length", "30", "--burnin-length", "10"]
    elif prog == "makeimage":
        a = [prog, cfg] + opt("--psf", "psf") + opt("--overpsf", "overpsf") + opt("--refimage", "reference")
        a += ["-o", out("image", "image.fits"), "--output-functions", out("parts", "part", "part1_Gaussian.fits", "part2_FlatSky.fits")]
    else:
        multi = prog == "multimfit"
        fx = "\tfixed\n" if multi else "\n"
        t = ""
        for j in ("", "2"):
            t += "IMAGE_START\n"
            for k, r in (("DATA", "data" + j), ("MASK", "mask" + j), ("ERROR", "noise" + j), ("PSF", "psf" + j)):
                if r in img:
                    t += "%s\t%s\n" % (k, img[r])
            if "overpsf" + j in img:
                t += "OVERSAMPLED_PSF\t%s\nOVERSAMPLE_SCALE\t2\nOVERSAMPLED_REGION\t2:4,3:6\n" % img["overpsf" + j]
            if not multi:
                t += "DATA\t%s\n" % img["reference"] if "reference" in img and not j else "NCOLS\t%d\nNROWS\t%d\n" % (N, N)
            if j:
                t += fx.join(["PIXEL_SCALE\t1.0", "IMAGE_PA\t0.0", "FLUX_SCALE\t1.0", "X0\t5", "Y0\t5", ""])
            t += "\n"
        a = [prog] + (["-c"] if multi else []) + [cfg, "--image-info", text(at("info.dat"), t, ins["info"])]
        a += ["--save-params-root", out("fits", "fit", "fit_refimage.dat", "fit_image2.dat", "fit_imageinfo.dat", "fit_summary.dat")] + (["--bootstrap", "3", "--save-bootstrap", out("boot", "boot.dat")] if "boot" in world["outputs"] else []) if multi else \
             ["-o", out("images", "im", "im_0.fits", "im_1.fits")]
    a += ["--max-threads", "1"]
    everything = [f for _, fs in outs.values() for f in fs]
    before = look(everything)
    rc, o, err = vlib.run(a, d, timeout=90)
    after = look(everything)
    if rc == 124:
        return None
    new = {o: [after[f] is not None and after[f] != before[f] for f in fs] for o, (_, fs) in outs.items()}
    stray = [o for o in new if any(new[o]) and not all(new[o])]
    crash = rc < 0 or 128 < rc < 160
    shutil.rmtree(i)
    return {"world": world, "end": "crash" if crash else "done" if rc == 0 else "stopped", "wrote": [o for o in new if all(new[o])] + ["half " + o for o in stray],
            "told": [o for o, (p, _) in outs.items() if p in err], "said": rc == 0 or "rror" in err or "ERROR" in err or "ouldn't" in err, "args": {"rc": rc, "err": err[-400:], "cmd": " ".join(a)}}


def world(rng):
    p = rng.choice(sorted(IMAGES))
    ins = {r: "ok" for r in NEEDED[p]}
    for r in IMAGES[p]:
        if rng.random() < .4:
            ins[r] = "ok"
    for r in rng.sample(sorted(ins), min(len(ins), rng.choice([0, 0, 1, 1, 2, 3]))):
        ins[r] = rng.choice(["missing", "text", "empty", "directory"]) if r in ("config", "info") else rng.choice(BROKEN + (["size"] if r[:4] in ("mask", "nois") else []))
    return {"prog": p, "inputs": ins, "outputs": {o: "bad" if rng.random() < .15 else "good" for o in OUTPUTS[p]}}


def case(w, rng):
    """A history: the world itself after and before runs that go well, in the same directory."""
    good = {"prog": w["prog"], "inputs": {r: "ok" for r in w["inputs"]}, "outputs": {o: "good" for o in w["outputs"]}}
    worlds = [w]
    if rng.random() < .6:
        worlds.insert(0, good)
    if rng.random() < .3:
        worlds.append(good)
    return {"worlds": worlds, "seed": rng.randrange(10**9)}


def replay(case, work, i):
    d = os.path.join(work, "f%05d" % i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "out"))
    rng = random.Random(case["seed"])
    ev = []
    for n, w in enumerate(case["worlds"]):
        e = run(w, d, n, rng)
        if e is None:
            break
        ev.append(e)
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(d, ignore_errors=True)
    return {"id": i, "ev": ev, "case": case}
