from session_common import *
import solvercase as sc, solver_common as sol

STOPS = [dict(solver=s, stop=1, want=w) for s in ("LM", "NM", "DE") for w in (set(), {"model", "resid", "weights"})] + [
    dict(solver="LM", stop=1, boot=1, want={"boot", "model"}), dict(solver="DE", stop=1, boot=1, want={"boot"})]
KINDS = STOPS + [dict(solver="LM", want={"model", "resid"}), dict(solver="NM"), dict(mode="stat", **{"from": "best"}),
                 dict(mode="stat", **{"from": "intr"}), dict(solver="DE", want={"weights"})]


def body(c):
    enum, stops = sol.model(c, ["LM", "DE", "NM", "BOBYQA"])
    xs = []
    for x in sol.sample(c, stops, c.q(250, 2000)):
        y = sol.concrete(c, x, sig=max(1, x["stopAt"] + c.rng.choice([0, 0, 1, 3, 9, 30])))
        if y["kind"] == "nan":
            continue
        xs.append(y)
    c.notes["stops_available"] = len(stops)
    sol.conform(c, "solver-stops", xs)
    sol.conform(c, "solver-random", [sc.rcase(c.rng, sig=1) for _ in range(c.q(500, 5000))])
    h2 = model(c, "sessions-2", KINDS, 2)
    h3 = model(c, "sessions-3", KINDS, 3)
    c.notes["model_cases_available"] = len(h2) + len(h3)
    some = [h for h in h2 + h3 if any(s["stop"] for s in h)]
    conform(c, "histories", concretise(c, sample(c, some, c.q(300, 2500)), boots=(3, 6)))


vlib.main("C09", body, rule="stop requests at enumerated evaluations of the real solvers, and SIGINT delivered to the real imfit at chosen model "
          "computations within histories of sessions enumerated by TLC; conduct, result and files validated against Solver.tla and FitSession.tla")
