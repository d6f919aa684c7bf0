import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, multicase as mc, functions as fu


def body(c):
    r = c.model("frames", "MCMultiImage", "SPECIFICATION MCSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  Emit = TRUE\n  MaxSets = %d\n  MaxImages = %d\n" % (c.q(2, 3), c.q(3, 3)) +
                "".join("INVARIANT %s\n" % i for i in ("Gen", "Layout", "Frames", "There", "Lengths")))
    shapes = r.objs("case")
    c.notes["models_enumerated"] = len(shapes)
    todo = [mc.finish({"model": s["model"], "images": s["images"], "mode": c.rng.choice(["picture", "stat"])}, c.rng)
            for s in c.rng.sample(shapes, min(len(shapes), c.q(60, 1000)))]
    fast = [f for f in sorted(fu.FUNCS) if f not in fu.SLOW]
    for i in range(c.q(120, 2000)):
        todo.append(mc.rand_case(c.rng, sorted(fu.FUNCS) if c.rng.random() < .03 else fast))
    for i in range(c.q(60, 800)):
        todo.append(mc.rand_fit(c.rng))

    def again(tr):
        return mc.replay(tr["case"], os.path.join(c.work, "again"), tr["id"])
    trs = vlib.pmap(lambda t: mc.replay(t[1], os.path.join(c.work, "multi"), t[0]), list(enumerate(todo)))
    c.conform("images", "TraceMultiImage", trs, confirm=again)


vlib.main("C19", body, rule="models and sets of images enumerated by TLC and seeded-random ones over all image functions; every trace is a set of runs of "
          "makemultimages or multimfit compared, image by image, with makeimage and imfit given what MultiImage.tla says that image sees")
