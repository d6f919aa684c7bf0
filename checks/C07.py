from solver_common import *


def body(c):
    enum, stops = model(c, ["LM", "DE", "NM", "BOBYQA"])
    xs = [x for x in enum if any(p["fixed"] or p["lim"] for p in x["pars"])]
    xs = [dict(x, solver=s) for x in xs for s in ({x["solver"]} | ({"COBYLA", "NEWUOA", "NLNM", "SBPLX", "PRAXIS"} if x["solver"] == "BOBYQA" else set()))]
    c.notes["model_cases_available"] = len(xs)
    conform(c, "enumerated", [concrete(c, x) for x in sample(c, xs, c.q(300, 3000))])
    conform(c, "random", [sc.tight(c.rng) for _ in range(c.q(500, 6000))])


vlib.main("C07", body, rule="fit problems with every combination of fixed/limited/free parameters and starting positions enumerated by "
          "TLC, and seeded-random ones with optima outside the limits; every point the real solvers evaluate and return must be "
          "allowed by Solver.tla")
