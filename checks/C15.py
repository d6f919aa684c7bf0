from image_common import *


def raw(tr):
    """The same recorded run with regions following the known deviation."""
    ev = [dict(e, region=dict(e["region"], raw=1)) if e["e"] == "region" else e for e in tr["ev"]]
    return "pointsource-in-region", dict(tr, ev=ev)


def body(c):
    p3 = {"w": 3, "h": 3, "norm": 1, "v": [[0, 1, 0], [1, 3, 2], [0, 0, 1]]}
    p1 = {"w": 1, "h": 1, "norm": 1, "v": [[1]]}
    fns = [{"k": "flat", "a": 6}, {"k": "spike", "a": 72}, {"k": "tilt", "a": 12, "mx": 3, "my": -2}]
    psfs = [{"w": 3, "h": 1, "norm": 1, "v": [[1, 2, 1]]}]
    regs = [{"x1": 2, "x2": 4, "y1": 1, "y2": 2, "s": 3, "psf": p3, "raw": 0}, {"x1": 1, "x2": 2, "y1": 2, "y2": 4, "s": 2, "psf": p3, "raw": 0},
            {"x1": 3, "x2": 9, "y1": 2, "y2": 3, "s": 1, "psf": p1, "raw": 0}, {"x1": 0, "x2": 2, "y1": 1, "y2": 3, "s": 2, "psf": p1, "raw": 0}]
    cases = model(c, "regions", [(5, 4), (4, 6)], [(4, 4), (6, 2), (5, 5)], fns, psfs, regs, 1, 2, 2,
                  ["RegionsLocal", "SkyKept", "LinearKept", "Additive"])
    cases = [x for x in cases if x["regions"]]
    got = sample(c, cases, c.q(300, 2500))
    rnd = [ic.rcase(c.rng, psf="maybe", regions=c.rng.choice([1, 1, 2, 3]), maxfn=3) for _ in range(c.q(300, 2500))]
    pts = [ic.rcase(c.rng, psf="always", regions=c.rng.choice([1, 2]), points=True, maxfn=3)
           for _ in range(c.q(120, 800))]
    for x in rnd + got + pts:
        x["threads"] = c.rng.choice([1, 1, 2, 4])
        x["psfsum"] = c.rng.choice([0, 0, 0.97, 1.02, 0.3, 1e-5, 40, 1])
    for x in pts:
        x["psfsum"] = 0       # the known deviation depends on the sum
    c.notes["model_cases_available"] = len(cases)
    conform(c, "enumerated", record(c, got, singles=False))
    conform(c, "random", record(c, rnd, singles=True))
    conform(c, "points", record(c, pts, singles=True), quirk=raw)


vlib.main("C15", body, rule="models x oversampled regions enumerated by TLC and seeded-random ones; every trace is a "
          "makeimage run whose image (and per-component images) must equal Image.tla's, pixel by pixel")
