from conf_common import *

BOTH = ["imfit", "makeimage"]


def body(c):
    _, bad = model(c, "texts", ["blank"] + CORE + BAD, c.q(5, 6))
    c.notes["model_cases_available"] = len(bad)
    conform(c, "enumerated", sample(c, bad, c.q(2500, 20000)), lambda i: BOTH if i % 6 == 0 else [])
    # a valid file, one error in it
    conform(c, "corrupted", [cc.corrupt(cc.rlines(c.rng), c.rng) for _ in range(c.q(1000, 9000))], lambda i: BOTH)
    conform(c, "corrupted-all", [cc.corrupt(cc.rlines(c.rng, skies=False), c.rng) for _ in range(c.q(1500, 12000))], lambda i: [])


vlib.main("C02", body, rule="ill-formed configuration texts enumerated by TLC and valid ones with one line corrupted; verdict, message, exit status and "
          "files of the real parser, imfit and makeimage must be those of Config.tla")
