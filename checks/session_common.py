from image_common import *
import sesscase as se


def sessions(kinds):
    r = []
    for k in kinds:
        s = {"mode": "fit", "solver": "LM", "stat": "chi2", "boot": 0, "want": set(), "stop": 0, "from": "orig"}
        s.update(k)
        r.append(s)
    return r


def tses(s):
    return "[" + ", ".join("%s |-> %s" % (k, "{" + ", ".join('"%s"' % x for x in sorted(v)) + "}" if k == "want" else tla(v)) for k, v in s.items()) + "]"


def model(c, name, kinds, n, emit=True):
    """Exhaustive histories of n sessions; returns them as lists of session records."""
    wrap = "---- MODULE MCrun ----\nEXTENDS MCFitSession\nSessions_ == {%s}\n====\n" % ",\n  ".join(tses(s) for s in sessions(kinds))
    cfg = "SPECIFICATION MSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  Sessions <- Sessions_\n  MaxNum = %d\n  Emit = %s\n" % (n, tla(emit))
    for i in ("BestIsFinished", "IntrIsStopped", "OnlyAsked", "SavedIsAllowed"):
        cfg += "INVARIANT %s\n" % i
    if emit:
        cfg += "INVARIANT Gen\n"
    cfg += "PROPERTY StoppedKeeps\nPROPERTY StatKeeps\nPROPERTY BootstrapKeeps\n" + ("PROPERTY Ends\n" if n < 3 else "")
    r = c.model(name, "MCrun", cfg, files={"MCrun.tla": wrap})
    uniq = {json.dumps([dict(s, want=sorted(s["want"])) for s in h], sort_keys=True) for h in r.objs("case")}
    return [json.loads(x) for x in sorted(uniq)]


def record(c, sub, cases):
    return vlib.pmap(lambda t: se.replay(t[1], os.path.join(c.work, sub), t[0]), list(enumerate(cases)))


def concretise(c, hists, **kw):
    seeds = [c.rng.random() for _ in hists]
    return vlib.pmap(lambda t: se.concrete(t[0], __import__("random").Random(t[1]), c.work, **kw), list(zip(hists, seeds)))


def conform(c, name, cases):
    def again(tr):
        return se.replay(tr["case"], os.path.join(c.work, "again"), tr["id"])
    c.conform(name, "TraceFitSession", record(c, name, cases), confirm=again)
