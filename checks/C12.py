import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, mcmccase as mc


def slim(t):
    return {k: v for k, v in t.items() if k in ("id", "case", "ev")}


def body(c):
    c.model("lattice", "MCMcmc", "SPECIFICATION MCSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  Depth = %d\n" % c.q(2, 3) +
            "".join("INVARIANT %s\n" % i for i in ("InRegion", "LikOfState", "HistWhole", "Reversible")) + "PROPERTY NotInBurn\nPROPERTY Lawful\n")
    todo = [mc.rcase(c.rng) for _ in range(c.q(120, 1500))]
    todo += [mc.rcase(c.rng, kind="bowl", wide=True, gel=500, adapt=0) for _ in range(c.q(30, 90))]
    trs = vlib.pmap(lambda t: mc.replay(t[1], os.path.join(c.work, "run%d" % t[0]), t[0]), list(enumerate(todo)))

    def again(tr):
        return slim(mc.replay(tr["case"], os.path.join(c.work, "again%d" % tr["id"]), tr["id"]))
    c.notes["generations"] = sum(len(t["ev"]) for t in trs)
    c.notes["converged"] = sum(t["ev"][-1].get("converged", 0) for t in trs)
    c.conform("chains", "TraceMcmc", [slim(t) for t in trs], confirm=again)
    pool = []
    bins = [[0, 0] for _ in range(12)]
    for t in trs:
        for b in range(12):
            if bins[b][0] < 18000:
                bins[b] = [x + y for x, y in zip(bins[b], t.get("bins", bins)[b])] if "bins" in t else bins[b]
    pool.append({"id": "decisions", "ev": [{"e": "accepts", "bins": bins}]})
    for d in range(1, 6):
        k = [0, 0, 0]
        for t in trs:
            if t.get("nfree") == d and t["case"]["adapt"] == 0 and t["case"]["kind"] == "bowl" and t["case"]["n"] > 3 and k[0] < 15000 and t["cross"][0]:
                k = [x + y for x, y in zip(k, t["cross"])]
        pool.append({"id": "updates%d" % d, "ev": [{"e": "crosses", "d": d, "n": k[0], "none": k[1], "all": k[2]}]})
    c.notes["worse_proposals_by_quarter_log_unit"] = bins
    c.conform("statistics", "TraceMcmc", pool)


vlib.main("C12", body, rule="exhaustive lattice model of the sampler; seeded-random targets (bowls, two wells, plateaus, undefined regions), limits and settings: every "
          "evaluation and every row of the chain files of the real dream() must be a step of Mcmc.tla, and the pooled acceptance and crossover frequencies those of the rule")
