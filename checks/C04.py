import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, geocase as gc, profcase as pc, functions as fu
from image_common import sample


def geometry(c):
    r = c.model("views", "MCGeometry", "SPECIFICATION MCSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  MaxViews = %d\n  Emit = FALSE\n"
                "INVARIANT Truth\nINVARIANT Explainable\nINVARIANT Sharp\n" % c.q(2, 3))
    r = c.model("sequences", "MCGeometry", "SPECIFICATION ChooseSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  MaxViews = %d\n  Emit = TRUE\nINVARIANT Gen\n" % c.q(2, 2))
    seqs = r.objs("case")
    c.notes["view_sequences"] = len(seqs)

    def again(tr):
        return gc.replay(tr["case"], os.path.join(c.work, "again"), tr["id"])
    todo = []
    for n in range(c.q(8, 60)):
        for f in gc.NAMES:
            vs = [v for v in c.rng.choice(seqs)]
            for _ in range(c.rng.choice([0, 1, 2])):
                vs = vs + [c.rng.choice(c.rng.choice(seqs))]
            vs = [dict(turn=v["turn"], mirror=v["mirror"], zoom=v["zoom"], amp=v["gain"]) for v in vs]
            todo.append(gc.case(vs, c.rng, f))
    trs = vlib.pmap(lambda t: gc.replay(t[1], os.path.join(c.work, "geo"), t[0]), list(enumerate(todo)))
    c.conform("geometry", "TraceGeometry", trs, confirm=again)


def profiles(c):
    r = c.model("profiles", "MCProfiles", "SPECIFICATION MCSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  Emit = TRUE\n" +
                "".join("INVARIANT %s\n" % i for i in ("Gen", "Central", "Scale", "Related", "Limits", "Oriented")))
    fns = r.objs("case")
    c.notes["functions_enumerated"] = len(fns)
    by = {}
    for f in fns:
        by.setdefault(f["f"], []).append(f)
    todo = []
    for f in sorted(by):
        n = c.q(3, 25) if f in fu.SLOW else c.q(12, 120)
        todo += [pc.case(g, c.rng) for g in c.rng.sample(by[f], min(n, len(by[f])))]

    def again(tr):
        return pc.replay(tr["case"], os.path.join(c.work, "again"), tr["id"])
    trs = vlib.pmap(lambda t: pc.replay(t[1], os.path.join(c.work, "prof"), t[0]), list(enumerate(todo)))
    c.conform("profiles", "TraceProfiles", trs, confirm=again)


def body(c):
    profiles(c)
    geometry(c)


vlib.main("C04", body, rule="")
