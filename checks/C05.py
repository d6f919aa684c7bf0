from image_common import *
import compcase as cc


def components(c):
    """Arbitrary image functions: the brightness of each is learned from single-component images (Components.tla)."""
    inv = ["Explainable", "Truth", "Sharp"]
    wrap = "---- MODULE MCrun ----\nEXTENDS MCComponents\nCentres_ == %s\nSizes_ == %s\n====\n"
    cfg = "SPECIFICATION MCSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  Centres <- Centres_\n  Sizes <- Sizes_\n  NKeys = %d\n" \
          "  MaxSets = %d\n  MaxFns = %d\n  Emit = %s\n"
    c.model("looks", "MCrun", cfg % (2, 2, c.q(2, 3), "FALSE") + "".join("INVARIANT %s\n" % i for i in inv),
            files={"MCrun.tla": wrap % (tset([(2, 3), (6, 4)]), tset([(2, 3), (3, 2)]))})
    r = c.model("layouts", "MCrun", cfg % (3, 3, c.q(4, 5), "TRUE") + "INVARIANT Gen\nCONSTRAINT NoLooks\n",
                files={"MCrun.tla": wrap.replace("====", "NoLooks == looks = 0 /\\ \\A k \\in 1..NKeys : true[k] = 0\n====") % (tset([(9, 8), (4, 11)]), tset([(2, 3)]))})
    lay = r.objs("case")
    c.notes["layouts_enumerated"] = len(lay)
    got = sample(c, lay, c.q(150, 1500))
    work = os.path.join(c.work, "looks_runs")

    def again(tr):
        return cc.replay(tr["case"], os.path.join(c.work, "again"), tr["id"])
    for name, ls in (("layouts", got), ("functions", [cc.rlayout(c.rng) for _ in range(c.q(250, 3000))])):
        cases = [cc.case(x, c.rng) for x in ls]
        trs = vlib.pmap(lambda t: cc.replay(t[1], work, t[0]), list(enumerate(cases)))
        c.conform("looks_" + name, "TraceComponents", trs, confirm=again)


def body(c):
    fns = [{"k": "flat", "a": 3}, {"k": "tilt", "a": 10, "mx": 1, "my": -2}, {"k": "const", "a": 7},
           {"k": "spike", "a": 40}]
    cases = model(c, "components", [(4, 3)], [(4, 4), (3, 6)], fns, [], [], 2, 3, 0,
                  ["Additive", "Permutable", "SkyKept", "Shift"])
    got = sample(c, cases, c.q(260, 2000))
    rnd = [ic.rcase(c.rng, psf="maybe", regions=0, points=(i % 7 == 0), maxfn=c.rng.choice([2, 5, 9]))
           for i in range(c.q(160, 1200))]
    for x in rnd + got:
        x["threads"] = c.rng.choice([1, 1, 2, 3])
        x["psfsum"] = c.rng.choice([0, 0, 0.97, 1.02, 0.3, 1e-5, 40, 1])
    c.notes["model_cases_available"] = len(cases)
    conform(c, "enumerated", record(c, got, singles=True))
    conform(c, "random", record(c, rnd, singles=True))
    components(c)


vlib.main("C05", body, rule="models enumerated by TLC (all <=2 sets, <=3 components) and seeded-random "
          "models; every trace is a makeimage run whose whole image and per-component images are explained by Image.tla; "
          "layouts enumerated by TLC and random ones filled with any of the 28 image functions, whose brightness is learned "
          "from single-component images (Components.tla)")
