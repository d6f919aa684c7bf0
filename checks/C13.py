import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, chaincase as cc


def body(c):
    def mc(name, depth, n, sizes, emit):
        return c.model(name, "MCChainFiles", "SPECIFICATION MCSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  Depth = %d\n  N = %s\n  Sizes = %s\n  Emit = %s\n" % (depth, n, sizes, emit) +
                       "".join("INVARIANT %s\n" % i for i in ("AllGenerations", "Completes", "Gen")) + "PROPERTY NothingLost\n").objs("case")
    cases = mc("histories", 3, "{3}", "{2, 4}", "TRUE")
    if c.tier == "thorough":
        mc("deeper", 4, "{3}", "{2, 4}", "FALSE")
        cases += mc("more_chains", 3, "{3, 4}", "{2, 3}", "TRUE")
    c.notes["histories_enumerated"] = len(cases)
    todo = []
    for x in c.rng.sample(cases, c.q(220, 2500)):
        todo.append({"setup": cc.setup(c.rng), "hist": cc.from_model(x["ev"], c.rng.choice([1, 1, 3, 6])), "seed": c.rng.randint(1, 10**6), "oracles": 1})
        todo[-1]["setup"]["default"] = False
    for i in range(c.q(150, 2500)):
        todo.append({"setup": cc.setup(c.rng), "hist": cc.rhist(c.rng), "seed": c.rng.randint(1, 10**6), "oracles": 4, "twin": i % 4 == 0})

    for i in range(c.q(6, 40)):
        n = c.rng.choice([3, 4])
        todo.append({"setup": cc.bigsetup(c.rng), "seed": c.rng.randint(1, 10**6), "oracles": 2,
                     "hist": [{"e": "sigkill", "n": n, "m": 100000, "delay": c.rng.choice([5, 20, 60, 150])}, {"e": "append", "n": n, "m": c.rng.choice([3, 30, 60])}]})
        todo[-1]["setup"]["default"] = False

    def again(tr):
        return cc.replay(tr["case"], os.path.join(c.work, "again%s" % tr["id"]), tr["id"])
    trs = vlib.pmap(lambda t: cc.replay(t[1], os.path.join(c.work, "run%d" % t[0]), t[0]), list(enumerate(todo)))
    for k in ("fresh", "append", "freshkilled", "appendkilled", "refused", "oracle", "twin", "failed", "nostat", "unreadable"):
        c.notes["events_" + k] = sum(e["e"] == k for t in trs for e in t["ev"])
    c.conform("histories", "TraceChainFiles", trs, confirm=again)


vlib.main("C13", body, rule="every history of complete, killed and continued runs up to the bound, and seeded-random ones, carried out by the real imfit-mcmc; its chain files "
          "must be those of ChainFiles.tla and ChainRows.tla, their likelihoods those imfit reports")
