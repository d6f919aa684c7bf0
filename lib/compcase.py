"""Cases of spec/Components.tla: makeimage runs with arbitrary image functions."""
import os, shutil, random
import vlib, fits, functions as fu
from imagecase import q, qimg, half, rpsf, NOPSF, psf_args


def case(layout, rng, slow=True):
    """layout: [{x, y, fns: [k...]}] (centres in half pixels), k >= 1 naming one of a few functions with fixed parameter values."""
    keys = sorted({k for s in layout for k in s["fns"]})
    psf = rpsf(rng, norm=1) if rng.random() < .35 else NOPSF
    names = [f for f in fu.FUNCS if f not in fu.POINTS and (slow or f not in fu.SLOW)]
    if psf["w"] and rng.random() < .5:
        psf = rpsf(rng, norm=1, odd=True)
        names += list(fu.POINTS)
    fns = {}
    for k in keys:
        # often twice the same function, sharing some of the parameter values
        if fns and rng.random() < .5:
            o = rng.choice(list(fns.values()))
            f = fu.draw(rng, name=o[0])
            for a, b in zip(f[1], o[1]):
                if rng.random() < .6:
                    a[1] = b[1]
        else:
            f = fu.draw(rng, names)
        fns[str(k)] = f
    nx, ny = rng.randint(5, 11), rng.randint(5, 11)
    regions = []
    if psf["w"] and not any(f[0] in fu.POINTS for f in fns.values()) and rng.random() < .3:
        x1, y1 = rng.randint(1, nx - 2), rng.randint(1, ny - 2)
        regions = []            # (a region is not shift-covariant: C15)
    return {"layout": layout, "fns": fns, "psf": psf, "regions": regions, "dim": {"nx": nx, "ny": ny},
            "sub": rng.random() < .6, "threads": rng.choice([1, 1, 2, 4]), "seed": rng.randrange(10**6)}


def rlayout(rng):
    nk = rng.randint(2, 6)
    return [{"x": rng.randint(0, 22), "y": rng.randint(0, 22), "fns": [rng.randint(1, nk) for _ in range(rng.choice([1, 1, 2, 3, 5]))]}
            for _ in range(rng.choice([1, 2, 2, 3, 4]))]


def config(case, layout):
    t = ""
    for s in layout:
        t += "X0 %s\nY0 %s\n" % (half(s["x"]), half(s["y"])) + "".join(fu.text(case["fns"][str(k)]) for k in s["fns"])
    return t


def flat(layout):
    return [{"k": k, "x": s["x"], "y": s["y"]} for s in layout for k in s["fns"]]


def look(case, d, layout, nx, ny, singles, threads):
    """One makeimage run; the events it yields."""
    open(os.path.join(d, "c.dat"), "w").write(config(case, layout))
    for f in os.listdir(d):
        if f.startswith("one_") or f == "out.fits":
            os.remove(os.path.join(d, f))
    args = ["makeimage", "c.dat", "-o", "out.fits", "--ncols", str(nx), "--nrows", str(ny), "--max-threads", str(threads)]
    if not case["sub"]:
        args.append("--no-subsampling")
    args += psf_args(case, d)
    if singles:
        args += ["--output-functions", "one_"]
    rc, out, err = vlib.run(vlib.scramble(args, random.Random(case["seed"])), d, threads=threads, timeout=120)
    cs, ev = flat(layout), []
    try:
        ev.append({"e": "look", "cs": cs, "size": [nx, ny], "out": qimg(fits.read(os.path.join(d, "out.fits"))[0])})
        if singles:
            for n, c in enumerate(cs):
                nm = case["fns"][str(c["k"])][0]
                ev.append({"e": "look", "cs": [c], "size": [nx, ny],
                           "out": qimg(fits.read(os.path.join(d, "one_%d_%s.fits" % (n + 1, nm)))[0])})
    except Exception as e:
        ev.append({"e": "failed", "rc": rc, "err": err[-300:] + repr(e)})
    return ev


def replay(case, work, i, seed=0):
    d = os.path.join(work, "r%05d" % i)
    os.makedirs(d, exist_ok=True)
    rng = random.Random("%s/%s" % (case["seed"], "looks"))
    nx, ny = case["dim"]["nx"], case["dim"]["ny"]
    lay, ev = case["layout"], []
    # every component alone, from the place it has in the model ...
    done = []
    for c in flat(lay):
        if c not in done:
            done.append(c)
            ev += look(case, d, [{"x": c["x"], "y": c["y"], "fns": [c["k"]]}], nx, ny, False, 1)
    # ... the whole model and its parts in one run ...
    ev += look(case, d, lay, nx, ny, True, case["threads"])
    # ... the same model said in another order, or moved together with the frame, in an image of another shape
    other = lay[:]
    rng.shuffle(other)
    dx, dy = rng.randint(-2, 3), rng.randint(-2, 3)
    mx, my = max(2, nx + min(dx, 0) - rng.randint(0, 2)), max(2, ny + min(dy, 0) - rng.randint(0, 2))
    moved = [{"x": s["x"] + 2 * dx, "y": s["y"] + 2 * dy, "fns": s["fns"]} for s in other]
    ev += look(case, d, moved, mx + max(dx, 0), my + max(dy, 0), rng.random() < .4, rng.choice([1, 3]))
    shutil.rmtree(d, ignore_errors=True)
    return {"id": i, "ev": ev, "case": case}
