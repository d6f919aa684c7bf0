from image_common import *
import fitcase as fc


def opts_of(h):
    o = {}
    g = h["gn"] / h["gd"] / h["nc"]
    if g != 1:
        o["gain"] = "%g" % g
    if h["nc"] != 1:
        o["ncombined"] = h["nc"]
    if h["rn"]:
        o["readnoise"] = h["rn"]
    if h["sky"]:
        o["sky"] = h["sky"]
    return o


def body(c):
    n, p = dict(fc.NAN), fc.px
    datas = [[[p(5), n], [p(9), p(0)]], [[p(7), p(3), p(4)]], [[n]], [[p(12)], [p(20)]]]
    two = lambda a, b, cc, dd: [[a, b], [cc, dd]]
    masks = [{"has": 1, "zerobad": 0, "v": two(p(0), p(0), p(1), p(0))}, {"has": 1, "zerobad": 1, "v": two(p(1), p(1), p(0), p(0))},
             {"has": 1, "zerobad": 0, "v": two(n, p(0), p(0), p(1))}]
    errs = [{"has": 1, "type": t, "v": two(p(2), p(1), p(4), e)} for t in ("sigma", "variance", "weight") for e in (p(3), p(0), p(-1), n)]
    chars = [{"gn": 3, "gd": 2, "rn": 2, "nc": 1, "sky": 4}, {"gn": 4, "gd": 1, "rn": 3, "nc": 2, "sky": 0}]
    mods = [{"sets": [{"x": 2, "y": 2, "fns": [{"k": "flat", "a": 6}]}], "psf": ic.NOPSF},
            {"sets": [{"x": 4, "y": 2, "fns": [{"k": "tilt", "a": 8, "mx": 1, "my": 2}]}],
             "psf": {"w": 2, "h": 1, "norm": 0, "v": [[1, 1]]}}]
    tot = []
    # masks and error images only fit the 2x2 image
    for nm, ds, ms, es in (("2x2", datas[:1], masks, errs), ("other", datas[1:], [], [])):
        wrap = "---- MODULE MCrun ----\nEXTENDS MCFitStat\n"
        for k, v in (("Datas", ds), ("Masks", ms), ("Errs", es), ("Charss", chars), ("Models", mods)):
            wrap += "%s_ == %s\n" % (k, tset(v))
        wrap += 'Stats_ == {"chi2", "chi2model", "cash", "mlr"}\n====\n'
        cfg = "SPECIFICATION MSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" + "".join(
            "  %s <- %s_\n" % (k, k) for k in ("Datas", "Masks", "Errs", "Charss", "Models", "Stats")) + "  Emit = TRUE\n"
        for i in ("NonNegative", "Perfect", "CashMlr", "OnlyValid", "Accepted", "MaskWins", "Gen"):
            cfg += "INVARIANT %s\n" % i
        r = c.model("sessions-" + nm, "MCrun", cfg, files={"MCrun.tla": wrap})
        tot += r.objs("case")
    cases = []
    for x in tot:
        if x["refused"]:
            x["model"] = mods[0]
        x["opts"] = opts_of(x["chars"])
        cases.append(x)
    c.notes["model_cases_available"] = len(cases)
    cases = sample(c, cases, c.q(400, 4000))
    rnd = [fc.rcase(c.rng) for _ in range(c.q(600, 5000))]

    def rec(sub, xs):
        return vlib.pmap(lambda t: fc.replay(t[1], os.path.join(c.work, sub), t[0], seed=c.seed), list(enumerate(xs)))

    def again(tr):
        return fc.replay(tr["case"], os.path.join(c.work, "again"), tr["id"], seed=c.seed)
    c.conform("enumerated", "TraceFitStat", rec("e", cases), confirm=again)
    c.conform("random", "TraceFitStat", rec("r", rnd), confirm=again)


vlib.main("C06", body, rule="fit sessions enumerated by TLC and seeded-random ones (data, mask, error image, image "
          "characteristics, statistic, model); every trace is an imfit --fitstat-only run whose verdict, statistic, degrees "
          "of freedom, AIC/BIC, model, residual and weight images must be those of FitStat.tla")
