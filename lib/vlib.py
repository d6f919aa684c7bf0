"""Shared machinery of the checks: build, TLC runs, trace validation, evidence, verdict."""
import os, sys, json, re, subprocess, shutil, time, hashlib, random, fcntl, signal
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
OUT = os.path.join(BUILD, "out")
BIN = os.path.join(OUT, "bin")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = os.cpu_count() or 4
PROGRAM = {"imfit": "imfit", "makeimage": "makeimage", "imfit-mcmc": "mcmc",
           "makemultimages": "makemultimages", "multimfit": "multimfit"}


class CheckError(Exception):
    pass


def build():
    """Build the programs and harnesses from the current working tree of /repo (out of tree)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = dict(os.environ)
        for k in ("MAKEFLAGS", "CXXFLAGS", "CFLAGS", "CPPFLAGS", "LDFLAGS"):
            env.pop(k, None)
        env["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
        env["CCACHE_MAXSIZE"] = "400M"
        env["HOME"] = env.get("HOME", "/root")
        # objects are always rebuilt (through ccache, which compares contents, not times)
        shutil.rmtree(os.path.join(OUT, "obj"), ignore_errors=True)
        shutil.rmtree(os.path.join(OUT, "bin"), ignore_errors=True)
        base = ["make", "-f", os.path.join(V, "lib", "build.mk"), "REPO=" + REPO, "OUT=" + OUT,
                "V=" + V, "-j%d" % NPROC]
        # some function_objects are not part of the default programs and do not compile: -k
        p = subprocess.run(base + ["-k", "objs"], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        log = p.stdout
        # each check needs only some of the programs and harnesses: see run()
        p = subprocess.run(base + ["-k", "progs"], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            sys.stderr.write(log[-3000:] + p.stdout[-3000:])
        if not os.path.exists(os.path.join(BIN, "imfit")):
            raise CheckError("build of /repo failed")


# ------------------------------------------------------------------------------------ TLC

def _java(workdir, args, timeout, heap="6g", env=None, props=()):
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Dtlc2.TLC.stopAfter=0"] + list(props) + \
          ["-cp", TLA_CP, "tlc2.TLC"] + args
    cmd = [c for c in cmd if c != "-Dtlc2.TLC.stopAfter=0"]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, cwd=workdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        raise CheckError("TLC timed out after %ss\n%s" % (timeout, out[-2000:]))
    return p.returncode, out


class Tlc:
    """Result of one TLC run."""
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = (rc == 0 and "No error has been found" in out)
        self.violated = re.findall(r"(?:Invariant|property|Property|Action property) (\S+) (?:is|was) violated", out)
        self.prints = []
        for line in out.split("\n"):
            if line.startswith('"@@'):
                try:
                    self.prints.append(json.loads(line)[2:])
                except ValueError:
                    pass

    def objs(self, tag):
        """JSON objects printed by the spec as "@@<tag> <json>"."""
        r = []
        for s in self.prints:
            if s.startswith(tag + " "):
                r.append(s[len(tag) + 1:])
        return [json.loads(x) for x in sorted(r)]


def prep_dir(work, name):
    d = os.path.join(work, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f in os.listdir(os.path.join(V, "spec")):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(V, "spec", f), d)
    return d


def tlc(work, name, module, cfg, timeout=600, workers=None, files=None, extra=(), heap="6g", simulate=None,
        coverage=False):
    """Run TLC on spec/<module>.tla with the given cfg text in a private directory."""
    d = prep_dir(work, name)
    for fn, txt in (files or {}).items():
        with open(os.path.join(d, fn), "w") as f:
            f.write(txt)
    with open(os.path.join(d, "run.cfg"), "w") as f:
        f.write(cfg)
    args = ["-metadir", os.path.join(d, "states"), "-workers", str(workers or NPROC), "-config", "run.cfg",
            "-noGenerateSpecTE", "-nowarning"]
    if coverage:
        args += ["-coverage", "1"]
    if simulate:
        args += ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(simulate[2])]
    args += list(extra) + [module + ".tla"]
    rc, out = _java(d, args, timeout, heap)
    with open(os.path.join(d, "tlc.out"), "w") as f:
        f.write(out)
    r = Tlc(rc, out)
    if simulate and rc == 0:
        m = re.findall(r"Generated (\d+) states|number of states generated: (\d+)|(\d+) states checked", out)
        r.ok = "Error:" not in out
        nums = [int(x) for t in m for x in t if x]
        r.generated = r.distinct = max(nums) if nums else 0
    r.dir = d
    shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
    return r


TRACE_CFG = """SPECIFICATION TraceSpec
INVARIANT Report
CHECK_DEADLOCK FALSE
%s
"""


def validate(work, name, module, cases, consts="", timeout=700, workers=None, extra_files=None, heap="8g",
             invariants=()):
    """Validate recorded traces against spec/<module>.tla.

    cases: list of {"id":..., "ev":[...] , ...}.  The trace module reads trace.ndjson, prints
    "@@ok <case number>" when a case has been consumed completely and "@@at <c> <l>" is available
    through the Progress invariant.  Returns (accepted set of indices, Tlc result, rejected dict)."""
    slim = [_tlc_ints({k: v for k, v in c.items() if k not in ("case", "args", "cfg")}) for c in cases]
    cfg = TRACE_CFG % consts
    for i in invariants:
        cfg += "INVARIANT %s\n" % i
    left = list(range(len(cases)))
    acc, unjudged = set(), []
    for attempt in range(12):
        files = {"trace.ndjson": "\n".join(json.dumps(slim[i]) for i in left) + "\n"}
        files.update(extra_files or {})
        r = tlc(work, name, module, cfg, timeout=timeout, workers=workers, files=files, heap=heap)
        for s in r.prints:
            if s.startswith("ok "):
                acc.add(left[int(s[3:]) - 1])
        if r.ok:
            break
        # an observation outside the specification's domain (e.g. an image of the wrong shape) can make
        # TLC fail to evaluate it: that case is not explained; go on with the others
        m = re.findall(r"^/\\ c = (\d+)", r.out, re.M)
        if not m:
            raise CheckError("TLC failed while validating %s:\n%s" % (name, r.out[-4000:]))
        sys.stderr.write("note: TLC could not evaluate case %d of %s: %s\n" % (
            left[int(m[-1]) - 1], name, " ".join(re.findall(r"^Error: (.*)$", r.out, re.M)[:2])[:300]))
        bad = left[int(m[-1]) - 1]
        left = [i for i in left if i != bad and i not in acc]
        acc.discard(bad)
        if not left:
            break
    else:
        unjudged = left         # a dozen cases outside its domain are reason enough to refuse; the others stay open
    rej = [i for i in range(len(cases)) if i not in acc and i not in unjudged]
    return acc, r, rej


def furthest(work, name, module, case, consts="", extra_files=None):
    """How many events of one rejected case the specification can explain."""
    cfg = TRACE_CFG % consts + "INVARIANT Progress\n"
    files = {"trace.ndjson": json.dumps(_tlc_ints({k: v for k, v in case.items() if k not in ("case", "args", "cfg")})) + "\n"}
    files.update(extra_files or {})
    r = tlc(work, name, module, cfg, timeout=300, workers=1, files=files)
    best = 0
    for s in r.prints:
        if s.startswith("at "):
            best = max(best, int(s[3:]))
    return best, r.out


def _tlc_ints(x):
    """A trace as TLC can read it: an integer beyond its range becomes the largest one (no specification here has
    anything that large, so such an observation is refused, or overflows and is refused for that)."""
    if isinstance(x, (bool, str)):
        return x
    if isinstance(x, int):
        return max(-2**31 + 1, min(2**31 - 1, x))
    if isinstance(x, dict):
        return {k: _tlc_ints(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_tlc_ints(v) for v in x]
    raise CheckError("%s in a trace: %r" % (type(x).__name__, x))


# ------------------------------------------------------------------------------- programs

def run(cmd, cwd, timeout=60, env=None, inp=None, threads=1):
    e = {"PATH": "/usr/bin:/bin", "HOME": cwd, "LC_ALL": "C", "OMP_NUM_THREADS": str(threads),
         "OMP_WAIT_POLICY": "passive"}
    e.update(env or {})
    if cmd[0] in PROGRAM:
        cmd = [os.path.join(BIN, PROGRAM[cmd[0]])] + cmd[1:]
    elif "/" not in cmd[0]:
        cmd = [os.path.join(BIN, cmd[0])] + cmd[1:]
    if cmd[0].startswith(BIN) and not os.path.exists(cmd[0]):
        raise CheckError("not built: " + cmd[0])
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         stdin=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        out, err = p.communicate(inp, timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        return 124, out, err
    return p.returncode, out, err


NOVALUE = {"help", "version", "printimage", "chisquare-only", "fitstat-only", "errors-are-variances", "errors-are-weights", "mask-zero-is-bad",
           "no-normalize", "no-subsampling", "model-errors", "cashstat", "poisson-mlr", "mlr", "nm", "de", "de-lhs", "quiet", "silent", "loud",
           "save-expanded", "print-fluxes", "nosave", "append", "nosubsampling"}
ALIAS = {"--config": "-c", "-c": "--config", "-o": "--output", "--output": "-o", "--poisson-mlr": "--mlr"}


def scramble(args, rng):
    """The same command line said differently: groups in any order, "--name value" or "--name=value", one dash or two, synonyms."""
    groups, i = [], 1
    while i < len(args):
        a = args[i]
        if a.startswith("-") and a.lstrip("-") not in NOVALUE:
            groups.append([a, args[i + 1]])
            i += 2
        else:
            groups.append([a])
            i += 1
    names = [g[0] for g in groups if g[0].startswith("-")]
    once = [g for g in groups if not g[0].startswith("-") or names.count(g[0]) > 1]
    rest = [g for g in groups if g not in once]
    rng.shuffle(rest)
    # words whose relative order matters keep it
    slots = sorted(rng.sample(range(len(groups)), len(once)))
    out = []
    for k in range(len(groups)):
        out.append(once.pop(0) if k in slots else rest.pop(0))
    r = [args[0]]
    for g in out:
        n = g[0]
        if n.startswith("-"):
            if rng.random() < .5:
                n = ALIAS.get(n, n)
            n = rng.choice(["-", "--"]) + n.lstrip("-")
        if len(g) == 2 and rng.random() < .5:
            r.append(n + "=" + g[1])
        else:
            r += [n] + g[1:]
    return r


def pmap(f, xs, workers=None):
    with ThreadPoolExecutor(workers or NPROC) as ex:
        return list(ex.map(f, xs))


# ------------------------------------------------------------------------------ the check

class Check:
    def __init__(self, pid, argv=None):
        argv = sys.argv if argv is None else argv
        self.pid = pid
        self.tier = "thorough" if "thorough" in argv[1:] or os.environ.get("VERIF_TIER") == "thorough" else "quick"
        if "quick" in argv[1:]:
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.t0 = time.time()
        self.work = os.path.join(BUILD, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = 0
        self.traces = 0
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.bad = []          # list of dicts describing violations
        self.known = load_known(pid)
        self.hit_known = []

    def q(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    def log(self, *a):
        print("[%s %.0fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # --- model checking of the specification
    def model(self, name, module, cfg, timeout=800, **kw):
        r = tlc(self.work, name, module, cfg, timeout=timeout, **kw)
        if not r.ok:
            raise CheckError("the specification %s/%s does not satisfy its own properties:\n%s"
                             % (module, name, r.out[-4000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.log("model %s: %d states, %d transitions" % (name, r.distinct, r.generated))
        return r

    # --- conformance: recorded traces against the specification
    def conform(self, name, module, cases, consts="", confirm=None, key=None, quirk=None, **kw):
        """Validate traces; anything rejected is re-run once (confirm(case)->case) before it counts.
        key(case) -> string matched against the known-findings file.
        quirk(case) -> (key, case'): the trace with a recorded deviation of the implementation switched on;
        if the specification explains case', the run is exactly that known finding, nothing else."""
        if not cases:
            raise CheckError("no traces recorded for " + name)
        acc, r, rej = validate(self.work, name, module, cases, consts, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.traces += len(acc)
        self.log("conformance %s: %d traces, %d rejected" % (name, len(cases), len(rej)))
        if len(self.samples) < 6:
            self.samples.append({"check": name, "case": _short(cases[self.rng.randrange(len(cases))])})
        if rej and quirk:
            alt = [(i,) + quirk(cases[i]) for i in rej]
            alt = [a for a in alt if a[1] in self.known]
            if alt:
                acc2, r2, _ = validate(self.work, name + "_known", module, [a[2] for a in alt], consts, **kw)
                self.traces += len(acc2)
                for j in acc2:
                    if alt[j][1] not in self.hit_known:
                        self.hit_known.append(alt[j][1])
                gone = set(alt[j][0] for j in acc2)
                rej = [i for i in rej if i not in gone]
        if not rej:
            return
        if confirm:
            again = [confirm(cases[i]) for i in rej[:40]]
            again = [c for c in again if c is not None]
            if again:
                _, _, rej2 = validate(self.work, name + "_confirm", module, again, consts, **kw)
                cand = [again[i] for i in rej2]
            else:
                cand = []
        else:
            cand = [cases[i] for i in rej]
        for c in cand[:8]:
            n, out = furthest(self.work, name + "_why", module, c, consts, kw.get("extra_files"))
            ev = c.get("ev", [])
            self.violation(name, c, "the specification explains %d of %d events; next event: %s"
                           % (n, len(ev), json.dumps(ev[n])[:2000] if n < len(ev) else "(end)"),
                           key(c) if key else None)
        for c in cand[8:]:
            self.violation(name, c, "rejected", key(c) if key else None)

    def violation(self, what, case, why, key=None):
        if key is not None and key in self.known:
            if key not in self.hit_known:
                self.hit_known.append(key)
            return
        self.bad.append({"what": what, "why": why, "case": case})

    def finish(self, level="model_checking", rule=""):
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        if self.traces == 0:
            raise CheckError("no trace was validated against the implementation")
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "samples": self.samples[:6], "rule": rule},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.bad)}
        ev["coverage"].update(self.notes)
        with open(os.path.join(V, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.hit_known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[k]))
        if self.bad:
            os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
            path = os.path.join(BUILD, "replay", self.pid + ".json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier, "violations": self.bad[:20]},
                          f, indent=1)
            for b in self.bad[:5]:
                print("  %s: %s" % (b["what"], b["why"][:1500]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            sys.stdout.flush()
            sys.exit(1)
        shutil.rmtree(self.work, ignore_errors=True)
        self.log("held: %d states, %d traces" % (self.states, self.traces))
        sys.exit(0)


def _short(c):
    s = json.dumps(c)
    return c if len(s) < 3000 else s[:3000]


def load_known(pid):
    """known-findings file: lines 'property=<id> key=<key> <what fails>' / 'fixed: ...'."""
    r = {}
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"^known: property=(\S+) key=(\S+) (.*)$", line.strip())
            if m and m.group(1) == pid:
                r[m.group(2)] = m.group(3)
    return r


def main(pid, body, rule=""):
    c = None
    try:
        c = Check(pid)
        build()
        c.log("built")
        body(c)
        c.finish(rule=rule)
    except CheckError as e:
        sys.stderr.write("CHECK ERROR (%s): %s\n" % (pid, e))
        sys.exit(2)
