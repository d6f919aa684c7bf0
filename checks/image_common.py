import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib, imagecase as ic, json


def tla(x):
    if isinstance(x, bool):
        return "TRUE" if x else "FALSE"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, str):
        return '"%s"' % x
    if isinstance(x, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(v)) for k, v in x.items()) + "]"
    if isinstance(x, (list, tuple)):
        return "<<" + ", ".join(tla(v) for v in x) + ">>"
    if isinstance(x, set):
        raise TypeError
    raise TypeError(x)


def tset(xs):
    return "{" + ", ".join(tla(x) for x in xs) + "}"


def model(c, name, sizes, centres, fns, psfs, regs, maxsets, maxfns, maxregs, invs, emit=True):
    wrap = "---- MODULE MCrun ----\nEXTENDS MCImage\n"
    for k, v in (("Sizes", sizes), ("Centres", centres), ("Fns", fns), ("Psfs", psfs), ("Regs", regs)):
        wrap += "%s_ == %s\n" % (k, tset(v))
    wrap += "====\n"
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
    for k in ("Sizes", "Centres", "Fns", "Psfs", "Regs"):
        cfg += "  %s <- %s_\n" % (k, k)
    cfg += "  MaxSets = %d\n  MaxFns = %d\n  MaxRegs = %d\n  Emit = %s\n" % (maxsets, maxfns, maxregs, tla(emit))
    for i in invs + (["Gen"] if emit else []):
        cfg += "INVARIANT %s\n" % i
    r = c.model(name, "MCrun", cfg, files={"MCrun.tla": wrap})
    return r.objs("case")


def sample(c, cases, n):
    if len(cases) <= n:
        return cases
    return c.rng.sample(cases, n)


def record(c, cases, singles=False):
    work = os.path.join(c.work, "runs")
    return vlib.pmap(lambda t: ic.replay(t[1], work, t[0], singles=singles, seed=c.seed), list(enumerate(cases)))


def conform(c, name, traces, quirk=None):
    def again(tr):
        return ic.replay(tr["case"], os.path.join(c.work, "again"), tr["id"], singles=bool(tr["singles"]), seed=c.seed)
    c.conform(name, "TraceImage", traces, confirm=again, quirk=quirk)
