import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, runcase as rc


def body(c):
    r = c.model("ways", "MCRuns", "SPECIFICATION MCSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  Emit = TRUE\n  MaxRuns = 2\n" +
                "".join("INVARIANT %s\n" % i for i in ("Gen", "Honest", "Sharp", "Threads", "Seeds", "Repeats")))
    asked = r.objs("case")
    c.notes["questions_and_ways_enumerated"] = len(asked)
    rare = [a for a in asked if a["k"]["prog"] in ("makeimage", "makemultimages", "multimfit", "imfit-mcmc")]
    todo = [rc.plan(a["k"], a["w"], c.rng) for a in c.rng.sample(rare, c.q(90, 900)) + c.rng.sample(asked, c.q(110, 2500))]

    def again(tr):
        return rc.replay(tr["case"], os.path.join(c.work, "again"), tr["id"])
    trs = vlib.pmap(lambda t: rc.replay(t[1], os.path.join(c.work, "runs"), t[0]), list(enumerate(todo)))
    c.conform("runs", "TraceRuns", trs, confirm=again)


vlib.main("C20", body, rule="questions (program, solver, statistic, PSF, bootstrap, seed) with the ways of asking them enumerated by TLC from Runs.tla; every trace is a history of "
          "runs of the real programs on one problem, asked plainly, in the enumerated way and in seeded-random ones; files written and numbers printed must be what the history allows")
