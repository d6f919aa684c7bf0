"""Runs of the real sampler (harness mcmc_rec) recorded for TraceMcmc."""
import os, math, shutil
import vlib

SCALE = 1000


def rcase(rng, kind=None, adapt=None, gel=None, wide=False):
    nfree = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6])
    n = rng.choice([3, 3, 4, 4, 5, 6]) if nfree < 5 else rng.choice([3, 4, 5])
    if nfree >= 5:
        n = rng.choice([3, 4])
    dims = [0] * nfree + [1] * rng.choice([0, 0, 1, 2])
    rng.shuffle(dims)
    vs, a = [], []
    kind = kind or rng.choice(["bowl", "bowl", "bowl", "wells", "plateau", "flat", "hole", "wall"])
    for lock in dims:
        lo = rng.randint(-10000, 4000) / SCALE
        hi = lo if lock else lo + rng.randint(100, 6000) / SCALE
        if wide and not lock:
            lo, hi = -10.0, 10.0
        r = hi - lo
        m = lo if lock else lo + r * rng.choice([.5, .5, .3, .9, 1.1])
        if wide:
            m = rng.uniform(-.5, .5)
        w = 0 if lock else rng.choice([2, 4, 8, 20]) / r
        if wide and not lock:
            w = 1 / .4
        vs.append((lock, lo, hi))
        a += [round(m, 3), round(w, 4)]
    if kind == "wells":
        a.append(rng.choice([0, 2, 20]))
    elif kind in ("hole", "wall"):
        last = vs[-1]
        a.append(last[1] + .7 * (last[2] - last[1]) if not last[0] else last[2] + 1)
    burn = rng.choice([0, 0, 20, 40, 95])
    maxe = rng.choice([63, 103, 153])
    if wide:
        maxe = 403
    return dict(n=n, vars=vs, kind=kind, a=a, max=maxe, burn=burn,
                noise=rng.choice([0, 0, .01, .05, .3]), bstar=rng.choice([0, 1e-6, 1e-3]), coll=rng.choice([1, 1, 1, 0]),
                adapt=rng.choice([0, 1]) if adapt is None else adapt,
                gel=(rng.choice([500, 500, 1, 2]) if gel is None else gel), crit=rng.choice([1.01, 1.05, 1.2, 1.5]),
                seed=rng.randint(1, 10**6))


def run(case, wd):
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    v = case["vars"]
    with open(os.path.join(wd, "in"), "w") as f:
        f.write("ch %d %d %d %d 0 %d %d %d %r %r %r\n%d\n" % (case["seed"], case["max"], case["n"], case["burn"], case["gel"], case["coll"],
                case["adapt"], case["noise"], case["bstar"], case["crit"], len(v)))
        for lock, lo, hi in v:
            f.write("%d %r %r\n" % (lock, lo, hi))
        f.write("%s %d\n%s\n" % (case["kind"], len(case["a"]), " ".join(repr(x) for x in case["a"])))
    r = vlib.run([os.path.join(vlib.BIN, "mcmc_rec"), "in", "out"], wd, timeout=120)
    return r


def num(x):
    if x != x:
        return {"s": "nan", "v": 0}
    if math.isinf(x):
        return {"s": "low", "v": 0}
    return {"s": "num", "v": round(x * SCALE)}


def rhat(chains, t0, n, j):
    m = len(chains)
    means = [sum(c[k][j] for k in range(t0, t0 + n)) / n for c in chains]
    var = [sum((c[k][j] - mu) ** 2 for k in range(t0, t0 + n)) / (n - 1) for c, mu in zip(chains, means)]
    mm = sum(means) / m
    B = sum((x - mm) ** 2 for x in means) / (m - 1)
    if all(c[k][j] == c[t0][j] for c in chains for k in range(t0, t0 + n)):
        return 1.0
    W = sum(var) / m
    if W <= 0:
        return 1.0
    return math.sqrt(((n - 1.0) / n * W + B + B / m) / W)


def replay(case, wd, ident):
    """-> trace (or a trace that no specification explains, if the run failed)"""
    r = run(case, wd)
    bad = {"id": ident, "case": case, "ev": [{"e": "failed", "rc": r[0]}]}
    try:
        log = open(os.path.join(wd, "out")).read().split("\n")
        files = []
        for k in range(case["n"]):
            with open(os.path.join(wd, "ch.%d.txt" % (k + 1))) as f:
                files.append([ln.split() for ln in f if ln.strip() and ln[0] != "#"])
    except OSError:
        return bad
    nv, n = len(case["vars"]), case["n"]
    keys = {}

    def key(words):
        return keys.setdefault(tuple(words), len(keys) + 1)

    def scaled(words):
        return [round(float.fromhex(w) * SCALE) for w in words]
    evals, res = [], None
    for ln in log:
        w = ln.split()
        if w and w[0] == "E":
            evals.append((int(w[1]), int(w[2]), int(w[3]), float.fromhex(w[4]), w[5:]))
        elif w and w[0] == "R":
            res = int(w[1])
    if res is None or any(len(f) != len(files[0]) for f in files) or not files[0]:
        return bad
    initial = [[e for e in evals if e[1] == -1 and e[0] == c] for c in range(n)]
    if any(not i for i in initial):
        return bad
    lik_of = {}
    for e in evals:
        lik_of.setdefault(tuple(e[4]), e[3])
    flt = [[[float.fromhex(x) for x in row[:nv]] for row in f] for f in files]

    def row(c, t):
        w = files[c][t]
        if len(w) != nv + 6:
            raise ValueError
        return {"key": key(w[:nv]), "x": scaled(w[:nv]), "lik": round(float(w[nv]) * SCALE), "burn": int(w[nv + 1]),
                "cr": [round(float(x) * 10**6) for x in w[nv + 2:nv + 5]], "acc": int(w[nv + 5])}
    free = [j for j in range(nv) if not case["vars"][j][0]]
    try:
        cfg = {"n": n, "vars": [{"lock": v[0], "lo": round(v[1] * SCALE), "hi": round(v[2] * SCALE)} for v in case["vars"]],
               "max": case["max"], "burn": case["burn"], "noise": round(case["noise"] * 10**4), "sig": 1 + round(7 * case["bstar"] * SCALE),
               "loop": 10, "collapse": case["coll"], "adapt": case["adapt"], "gel": case["gel"], "crit": round(case["crit"] * 10**4)}
        rows, cells = [], []
        for c in range(n):
            rr = row(c, 0)
            rr["lik"] = num(initial[c][-1][3])
            if tuple(initial[c][-1][4]) != tuple(files[c][0][:nv]) or abs(float(files[c][0][nv]) - initial[c][-1][3]) > 1e-6:
                rr["lik"] = {"s": "nan", "v": 0}
            rows.append(rr)
            cl = []
            for j, (lock, lo, hi) in enumerate(case["vars"]):
                cl.append(1 if lock else min(n, 1 + int((flt[c][0][j] - lo) / (hi - lo) * n)))
            cells.append({"on": 1 if len(initial[c]) == 1 else 0, "v": cl})
        ev = [{"e": "start", "cfg": cfg, "rows": rows, "cells": cells}]
        T = len(files[0])
        last = max(e[1] for e in evals)
        byg = {}
        for e in evals:
            byg.setdefault(e[1], []).append(e)
        off = {"on": 0, "key": 0, "x": [0] * nv, "lik": {"s": "low", "v": 0}}
        bins = [[0, 0] for _ in range(12)]
        cross = [0, 0, 0]

        def diag(t):
            flags = [k for k in range(t) if int(files[0][k][nv + 1])]
            first = max(flags) + 1 if flags and case["burn"] > 0 else 0
            t0 = (t + first) // 2
            k = t - t0 - 1
            if k < 2:
                return [10**8] * len(free)
            return [min(10**8, round(10**4 * rhat(flt, t0, k, j))) for j in free]
        for t in range(1, T):
            evs = [off] * n
            cnt = [0] * n
            for e in byg.get(t, []):
                if e[2]:
                    continue
                cnt[e[0]] += 1
                evs[e[0]] = {"on": 1, "key": key(e[4]), "x": scaled(e[4]), "lik": num(e[3])}
            if any(k > 1 for k in cnt):
                return bad
            # re-evaluations are of the states of this or the last generation
            for e in byg.get(t, []):
                if e[2] and e[4] not in (files[e[0]][t][:nv], files[e[0]][t - 1][:nv]):
                    ev.append({"e": "again", "c": e[0] + 1, "key": key(e[4])})
            w = [row(c, t) for c in range(n)]
            ev.append({"e": "gen", "ev": evs, "rows": w, "rhat": diag(t) if t % 10 == 0 else []})
            for c in range(n):
                old = float(files[c][t - 1][nv])
                if evs[c]["on"] and evs[c]["lik"]["s"] == "num":
                    d = round((old) * SCALE) - evs[c]["lik"]["v"]
                    if 0 < d < 3000:
                        b = d // 250
                        bins[b][0] += 1
                        bins[b][1] += w[c]["acc"]
                if case["adapt"] == 0:
                    if not evs[c]["on"]:
                        if w[c]["acc"]:
                            cross[0] += 1
                            cross[1] += 1
                    else:
                        cross[0] += 1
                        cross[2] += all(a != b for j, (a, b) in enumerate(zip([float.fromhex(z) for z in ([e[4] for e in byg[t] if e[0] == c and not e[2]][0])],
                                                                             flt[c][t - 1])) if j in free)
        conv = 1 if res == 0 else 0
        ev.append({"e": "end", "converged": conv, "rhat": diag(T) if conv else []})
    except (ValueError, OverflowError):
        return bad
    shutil.rmtree(wd, ignore_errors=True)
    return {"id": ident, "case": case, "ev": ev, "bins": bins, "cross": cross, "nfree": len(free)}
