from conf_common import *

BOTH = ["imfit", "makeimage"]


def body(c):
    good, _ = model(c, "texts", GOOD, c.q(6, 7))
    c.notes["model_cases_available"] = len(good)
    conform(c, "enumerated", sample(c, good, c.q(2500, 20000)), lambda i: BOTH if i % 8 == 0 else [])
    conform(c, "random-skies", [cc.rlines(c.rng) for _ in range(c.q(700, 6000))], lambda i: BOTH)
    conform(c, "random-all", [cc.rlines(c.rng, skies=False) for _ in range(c.q(1500, 12000))], lambda i: [])


vlib.main("C01", body, rule="configuration texts enumerated by TLC (every sequence of lines over an alphabet) and generated at random, laid out at "
          "random; what the real parser understood and what imfit and makeimage compute must be what Config.tla denotes")
