import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, sectcase as sc


def body(c):
    def mc(name, rich, inv):
        return c.model(name, "MCSection", "SPECIFICATION MCSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  Emit = TRUE\n  Rich = %s\n" % rich +
                       "".join("INVARIANT %s\n" % i for i in ("Gen", "Reasons", "SameSize", "CropOfWhole", "InFile")))
    cases = mc("references", "FALSE", None).objs("case")
    if c.tier == "thorough":
        cases += mc("references_psf", "TRUE", None).objs("case")
    c.notes["histories_enumerated"] = len(cases)
    ended = [x for x in cases if len(x["ev"]) < 4]
    longer = [x for x in cases if len(x["ev"]) >= 4]
    pick = c.rng.sample(ended, min(len(ended), c.q(150, 1500))) + c.rng.sample(longer, min(len(longer), c.q(300, 6000)))
    todo = [{"ev": x["ev"], "mode": "size" if len(x["ev"]) == 2 and c.rng.random() < .5 else "stat", "seed": c.rng.randrange(10**6)} for x in pick]
    todo += [sc.rcase(c.rng) for _ in range(c.q(500, 8000))]

    def again(tr):
        return sc.replay(tr["case"], os.path.join(c.work, "again"), tr["id"])
    trs = vlib.pmap(lambda t: sc.replay(t[1], os.path.join(c.work, "sect"), t[0]), list(enumerate(todo)))
    for k in ("stopped", "model", "sum", "size", "centres", "failed"):
        c.notes["runs_with_" + k] = sum(any(e["e"] == k for e in t["ev"]) for t in trs)
    c.conform("sections", "TraceSection", trs, confirm=again)


vlib.main("C16", body, rule="files, extensions and sections enumerated by TLC and seeded-random ones; every trace is a run of imfit, imfit-mcmc or makeimage "
          "whose saved images, weights and fitted coordinates must be those of Section.tla")
