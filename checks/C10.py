from session_common import *

ALL = {"model", "resid", "weights"}
KINDS = [dict(solver="LM", want=ALL), dict(solver="NM", want={"model", "resid"}), dict(solver="DE", want=ALL), dict(solver="LM"),
         dict(solver="LM", want={"weights"}), dict(solver="LM", want={"resid"}), dict(mode="stat", want=ALL), dict(mode="stat"),
         dict(mode="stat", **{"from": "best"}), dict(mode="stat", want={"model"}, **{"from": "best"}), dict(solver="LM", boot=1, want={"boot", "model", "resid"}),
         dict(mode="stat", boot=1, want={"boot", "model"})]


def body(c):
    h1 = model(c, "sessions-1", KINDS, 1)
    h2 = model(c, "sessions-2", KINDS, 2)
    hs = h1 * c.q(12, 60) + sample(c, h2, c.q(144, 144)) * c.q(2, 20)
    c.notes["model_cases_available"] = len(h1) + len(h2)
    conform(c, "enumerated", concretise(c, hs))
    fit = [[dict(s, stop=0)] for h in h1 for s in h if s["mode"] == "fit" and "resid" in s["want"]]
    conform(c, "linear", concretise(c, [fit[i % len(fit)] for i in range(c.q(600, 6000))], kind="lin"))
    lm = [h for h in fit if h[0]["solver"] == "LM"]
    conform(c, "nonlinear", concretise(c, [lm[i % len(lm)] for i in range(c.q(150, 2000))], kind="nonlin"))


vlib.main("C10", body, rule="histories of imfit sessions enumerated by TLC, each run in a directory of its own on a random problem; "
          "every reported value and written file must be explained by FitSession.tla")
