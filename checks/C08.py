from solver_common import *


def body(c):
    enum, stops = model(c, sc.SOLVERS if c.tier == "thorough" else ["LM", "DE", "NM", "BOBYQA", "PRAXIS"])
    xs = [dict(x, solver=s) for x in enum for s in ({x["solver"]} | ({"COBYLA", "NEWUOA", "NLNM", "SBPLX"} if x["solver"] == "BOBYQA" and c.tier == "quick" else set()))]
    c.notes["model_cases_available"] = len(xs)
    cases = [concrete(c, x) for x in sample(c, xs, c.q(400, 4000))]
    conform(c, "enumerated", cases)
    conform(c, "random", [sc.rcase(c.rng) for _ in range(c.q(500, 6000))])


vlib.main("C08", body, rule="fit problems enumerated by TLC and seeded-random ones for every solver; each trace is the sequence of "
          "evaluations of the real solver with its result, which must be a behaviour of Solver.tla")
