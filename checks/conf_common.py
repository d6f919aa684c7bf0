import os, sys, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib, confcase as cc

GOOD = ["blank", "gain", "ncols", "x0", "x0l", "y0", "flat", "tilt", "p", "pfix", "plim"]
BAD = ["gain0", "gainw", "opt3", "opt1", "x0w", "y0bad", "unknown", "noname", "prev", "pequal", "pout", "pword", "plimw", "palone"]

CORE = ["gain", "x0", "y0", "flat", "p"]


def model(c, name, alphabet, maxlen):
    cfg = "SPECIFICATION MSpec\nCONSTANTS\n  Alphabet = {%s}\n  MaxLen = %d\n  Emit = TRUE\n" % (
        ",".join('"%s"' % a for a in alphabet), maxlen)
    cfg += "INVARIANTS Conserved Whole InLimits Strict Gen\nPROPERTIES BlankNeutral OnlyGrows\nCHECK_DEADLOCK FALSE\n"
    r = c.model(name, "MCConfig", cfg)
    cases = r.objs("case")
    return [x["lines"] for x in cases if x["ok"]], [x["lines"] for x in cases if not x["ok"] and x["lines"]]


def sample(c, cases, n):
    return cases if len(cases) <= n else c.rng.sample(cases, n)


def conform(c, name, cases, progs):
    """progs(i): programs run on case i, besides the parser called directly."""
    tr = cc.record(os.path.join(c.work, name), cases, progs, "%s/%d/%s" % (c.pid, c.seed, name))
    c.conform(name, "TraceConfig", tr, confirm=lambda t: cc.record_one(os.path.join(c.work, "again"), t), quirk=quirk)


def quirk(t):
    single = [e for e in t["ev"] if e["e"] == "line" and e["l"]["h"] == "word" and len(e["l"]["name"]) == 1 and not e["l"]["t"]]
    if single:
        t2 = json.loads(json.dumps(t))
        for e in t2["ev"]:
            if e["e"] == "line" and e["l"]["h"] == "word" and len(e["l"]["name"]) == 1 and not e["l"]["t"]:
                e["l"] = {"h": "blank", "name": "", "t": [], "lab": ""}
        return "single-char-line", t2
    return "param-count-per-function", dict(t, lenient=1)
