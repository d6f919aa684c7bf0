"""Cases of spec/Profiles.tla: images of single functions against their documented profiles."""
import os, shutil, random, math
import vlib, fits, functions as fu

ANGLES = ["0", "36.86989764584402", "53.13010235415598", "90", "126.86989764584402", "143.13010235415598", "180",
          "-36.86989764584402", "270", "-53.13010235415598"]


def text(name, par):
    out = "FUNCTION %s\n" % name
    for p, k in fu.PARAMS[name]:
        v = par[p]
        out += "%s\t%s\n" % (p, ANGLES[v] if k in ("pa", "inc") else v / 100)
    return out


def case(fn, rng):
    slow = fn["f"] in fu.SLOW
    imgs = []
    for _ in range(1 if slow else 2):
        w, h = rng.randint(6, 16), rng.randint(6, 16)
        x, y = rng.randint(2, 2 * w), rng.randint(2, 2 * h)
        if slow:
            x, y = 2 * (x // 2), 2 * (y // 2)
        imgs.append({"size": [w, h], "x": x, "y": y})
    return {"fn": fn, "imgs": imgs, "threads": rng.choice([1, 1, 2, 4]), "seed": rng.randrange(10**6)}


def replay(case, work, i):
    d = os.path.join(work, "r%05d" % i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    rng = random.Random(case["seed"])
    fn, ev = case["fn"], []
    slow = fn["f"] in fu.SLOW
    try:
        for im in case["imgs"]:
            w, h = im["size"]
            open(os.path.join(d, "c.dat"), "w").write("X0 %s\nY0 %s\n" % (im["x"] / 2, im["y"] / 2) + text(fn["f"], fn["p"]))
            o = os.path.join(d, "out.fits")
            if os.path.exists(o):
                os.remove(o)
            args = ["makeimage", "c.dat", "-o", "out.fits", "--ncols", str(w), "--nrows", str(h), "--no-subsampling",
                    "--max-threads", str(case["threads"])]
            vlib.run(vlib.scramble(args, rng), d, threads=case["threads"], timeout=120)
            img = fits.read(o)[0]
            top = max(abs(v) for r in img for v in r)
            if not top < 1e30:
                raise ValueError("not finite")
            k = max(0, min(9, int(math.floor(math.log10(1.5e9 / top))))) if top > 0 else 3
            out = [[int(round(v * 10**k)) for v in r] for r in img]
            pts = [[x, y] for x in range(1, w + 1) for y in range(1, h + 1)]
            if slow:
                near = [q for q in pts if (2 * q[0] - im["x"])**2 + (2 * q[1] - im["y"])**2 < 150] or pts
                pts = rng.sample(near, min(len(near), 5))
            ev.append({"e": "show", "fn": fn, "x": im["x"], "y": im["y"], "k": k, "pts": pts, "out": out})
    except Exception as e:
        ev.append({"e": "failed", "err": repr(e)[-300:]})
    shutil.rmtree(d, ignore_errors=True)
    return {"id": i, "ev": ev, "case": case}
