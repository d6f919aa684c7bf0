from image_common import *


def body(c):
    fns = [{"k": "flat", "a": 6}, {"k": "spike", "a": 40}, {"k": "tilt", "a": 12, "mx": 3, "my": -2}]
    psfs = [{"w": 3, "h": 1, "norm": 1, "v": [[1, 2, 1]]}, {"w": 1, "h": 3, "norm": 1, "v": [[3], [1], [0]]},
            {"w": 2, "h": 2, "norm": 1, "v": [[1, 2], [3, 4]]}, {"w": 3, "h": 2, "norm": 0, "v": [[1, 0, 2], [0, 3, 1]]},
            {"w": 5, "h": 3, "norm": 1, "v": [[0, 1, 0, 0, 2], [1, 5, 1, 1, 0], [0, 1, 0, 0, 3]]}]
    cases = model(c, "convolution", [(4, 3), (3, 5), (2, 2)], [(4, 4), (2, 6), (0, 2), (10, 4)], fns, psfs, [], 1, 2, 0,
                  ["Additive", "SkyKept", "Shift"])
    cases = [x for x in cases if x["psf"]["w"]]
    got = sample(c, cases, c.q(400, 3000))
    rnd = []
    for i in range(c.q(400, 3000)):
        x = ic.rcase(c.rng, psf="always", regions=0, points=(i % 4 == 0), maxfn=4)
        if i % 4 and c.rng.random() < 0.4:      # PSFs larger than the image, strongly asymmetric
            x["psf"] = ic.rpsf(c.rng, 13, 13)
        rnd.append(x)
    for x in rnd + got:
        x["threads"] = c.rng.choice([1, 1, 2, 4])
        x["psfsum"] = c.rng.choice([0, 0, 0.97, 1.02, 0.3, 1e-5, 40, 1])
    c.notes["model_cases_available"] = len(cases)
    conform(c, "enumerated", record(c, got, singles=False))
    conform(c, "random", record(c, rnd, singles=True))


vlib.main("C14", body, rule="models x PSFs enumerated by TLC and seeded-random ones; every trace is a makeimage "
          "run whose image (and per-component images) must equal Image.tla's convolution, pixel by pixel")
