from session_common import *

KINDS = [dict(solver="LM", boot=1, want={"boot", "model"}), dict(solver="LM", boot=1), dict(solver="NM", boot=1, want={"boot", "resid"}),
         dict(solver="DE", boot=1, want={"boot"}), dict(mode="stat", boot=1, want={"boot", "resid"}), dict(mode="stat", boot=1, want={"model"}),
         dict(solver="LM")]


def body(c):
    h1 = model(c, "sessions-1", KINDS, 1)
    h2 = model(c, "sessions-2", KINDS, 2)
    c.notes["model_cases_available"] = len(h1) + len(h2)
    hs = h1 * c.q(20, 100) + sample(c, h2, 49) * c.q(6, 30)
    conform(c, "enumerated", concretise(c, hs, boots=(1, 2, 3, 7, 25, 60)))
    boot = [[s] for h in h1 for s in h if s["boot"]]
    conform(c, "resamples", concretise(c, [boot[i % len(boot)] for i in range(c.q(500, 5000))], boots=(20, 100, 150), kind="lin", single=True))


vlib.main("C11", body, rule="sessions with bootstrap resampling enumerated by TLC and run on random problems: rows, their number, summary "
          "statistics and files must be explained by FitSession.tla; for one free flat component every row must be the mean of a resample of "
          "exactly the unmasked pixels")
