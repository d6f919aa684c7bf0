import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, fluxcase as fc, functions as fu


def body(c):
    r = c.model("tables", "MCFlux", "SPECIFICATION MCSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  Emit = TRUE\n  MaxComps = %d\n" % c.q(2, 3) +
                "".join("INVARIANT %s\n" % i for i in ("Gen", "Honest", "Sharp", "FractionsAddUp", "TotalByParts", "Closed")))
    shapes = r.objs("case")
    c.notes["tables_enumerated"] = len(shapes)
    todo = [fc.case(s["f"], s["zp"], c.rng) for s in c.rng.sample(shapes, min(len(shapes), c.q(300, 2500)))]
    for i in range(c.q(500, 6000)):
        n = c.rng.randint(1, 7)
        names = [f for f in sorted(fu.FUNCS) if f not in fu.SLOW or c.rng.random() < .08]
        ks = [{"kind": c.rng.choice(names)} for _ in range(n)]
        todo.append(fc.case(ks, {"there": c.rng.random() < .6, "v": 250000}, c.rng))

    def again(tr):
        return fc.replay(tr["case"], os.path.join(c.work, "again"), tr["id"])
    trs = vlib.pmap(lambda t: fc.replay(t[1], os.path.join(c.work, "flux"), t[0]), list(enumerate(todo)))
    c.conform("tables", "TraceFlux", trs, confirm=again)


vlib.main("C18", body, rule="models enumerated by TLC and seeded-random ones over all image functions; every trace is a makeimage run whose printed "
          "and saved flux tables must be those of Flux.tla")
