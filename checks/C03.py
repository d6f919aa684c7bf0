import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib, cmdcase as k, fitcase as fc
from session_common import *

CFG = """SPECIFICATION MSpec
CONSTANTS
  Nothing = Nothing
  Mode = "%s"
  MaxLen = %d
  Strict = %d
INVARIANTS Denoted Refused Quiet Gen
PROPERTIES Grows
CHECK_DEADLOCK FALSE
"""
N = "CONSTANT Nothing = Nothing"


def sample(c, xs, n):
    return xs if len(xs) <= n else c.rng.sample(xs, n)


def body(c):
    # the option parser itself
    cases = []
    for strict in (1, 0):
        r = c.model("small%d" % strict, "MCCmdLine", CFG % ("small", c.q(4, 5), strict))
        cases += [(k.SMALL, strict, x["ws"]) for x in sample(c, r.objs("case"), c.q(5000, 40000))]
    w = os.path.join(c.work, "p")
    c.conform("parser-enumerated", "TraceCmdLine", k.parse(w, cases), N, confirm=lambda t: k.parse_one(w, t))
    cases = []
    for _ in range(c.q(4000, 40000)):
        d = k.rdefs(c.rng)
        cases.append((d, int(c.rng.random() < .7), k.rwords(c.rng, d, c.rng.choice([0, 1, 2, 4, 8, 14]))))
    c.conform("parser-random", "TraceCmdLine", k.parse(w, cases), N, confirm=lambda t: k.parse_one(w, t))
    # makeimage as a whole
    r = c.model("makeimage", "MCCmdLine", CFG % ("makeimage", c.q(3, 4), 1))
    xs = r.objs("case")
    pick = sample(c, [x for x in xs if x["w"]], c.q(500, 5000)) + sample(c, [x for x in xs if not x["w"]], c.q(500, 3000))
    w = os.path.join(c.work, "m")
    c.conform("makeimage-enumerated", "TraceCmdLine", k.run_mi(w, [(x["ws"], 0) for x in pick]), N, confirm=lambda t: k.mi_one(w, t))
    c.conform("makeimage-random", "TraceCmdLine", k.run_mi(w, [k.rmi(c.rng) for _ in range(c.q(1200, 12000))]), N, confirm=lambda t: k.mi_one(w, t))
    w = os.path.join(c.work, "i")
    c.conform("imfit-random", "TraceCmdLine", k.run_im(w, [k.rim(c.rng) for _ in range(c.q(1200, 12000))]), N, confirm=lambda t: k.im_one(w, t))
    # imfit: image description, statistic, mask, errors, outputs, given in every order and form
    def again(tr):
        return fc.replay(tr["case"], os.path.join(c.work, "again"), tr["id"], seed=c.seed)
    rnd = [fc.rcase(c.rng) for _ in range(c.q(500, 5000))]
    c.conform("imfit-statistics", "TraceFitStat", vlib.pmap(lambda t: fc.replay(t[1], os.path.join(c.work, "f"), t[0], seed=c.seed), list(enumerate(rnd))), confirm=again)
    # ... solver, what to save and where, resampling
    ks = [dict(solver=s, want=w) for s in ("LM", "NM") for w in ({"model"}, {"resid", "weights"})] + [dict(solver="DE", want={"resid"}),
          dict(mode="stat", want={"model", "weights"}), dict(solver="LM", boot=1, want={"boot"}), dict(mode="stat", boot=1, want={"boot", "resid"})]
    hs = model(c, "imfit", ks, 1)
    conform(c, "imfit-sessions", concretise(c, hs * c.q(12, 60)))


vlib.main("C03", body, rule="command lines enumerated by TLC (every sequence of words over an alphabet) and generated at random, given to the real "
          "option parser and to the real makeimage: parser answers, files written, sizes, levels, flux tables and exit status must be what CmdLine/MakeImageRun say")
