import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, filecase as fc


def body(c):
    r = c.model("worlds", "MCFiles", "SPECIFICATION MCSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  Emit = TRUE\n  MaxBad = %d\n" % c.q(2, 2) +
                "".join("INVARIANT %s\n" % i for i in ("Gen", "EndsAs", "Untouched", "NothingFromNothing", "Accounted", "Stuck")) + "PROPERTY Terminates\n")
    worlds = r.objs("case")
    c.notes["worlds_enumerated"] = len(worlds)
    bad = lambda w: sum(v != "ok" for v in w["inputs"].values())
    few = [w for w in worlds if bad(w) < 2]
    todo = [fc.case(w, c.rng) for w in few + c.rng.sample(worlds, c.q(500, 12000))]
    todo += [fc.case(fc.world(c.rng), c.rng) for _ in range(c.q(300, 5000))]

    def again(tr):
        return fc.replay(tr["case"], os.path.join(c.work, "again"), tr["id"])
    trs = vlib.pmap(lambda t: fc.replay(t[1], os.path.join(c.work, "files"), t[0]), list(enumerate(todo)))
    c.conform("runs", "TraceFiles", trs, confirm=again)


vlib.main("C17", body, rule="worlds (program, condition of every input file, writable and unwritable outputs) enumerated by TLC from Files.tla - all with up to one unusable input, a sample with two - "
          "and seeded-random ones; every trace is a history of runs of the real programs in one scratch directory, each of which must end as the specification says")
