"""Common machinery: tiers, counters, violations, evidence, known findings."""
import json, os, sys, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.path.join(VERIF, "evidence")


class Ctx:
    """One run of one check."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.states = 0          # configurations / histories / schedules visited
        self.transitions = 0     # moves between them
        self.validated = 0       # states on which implementation and reference were compared
        self.comparisons = 0     # single comparisons (state x frequency, ...)
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.fails = []
        self.nfail = 0
        self.known_hit = {}
        self.known = load_known(pid)

    def add(self, states=0, transitions=0, validated=0, comparisons=0):
        self.states += int(states); self.transitions += int(transitions)
        self.validated += int(validated); self.comparisons += int(comparisons)

    def sample(self, s, cap=8):
        if len(self.samples) < cap:
            self.samples.append(jsonable(s))

    def fail(self, key, what, **case):
        """Record a violation. key identifies the failing input or site."""
        if key in self.known:
            self.known_hit[key] = self.known[key]
            return
        self.nfail += 1
        if len(self.fails) < 20:
            self.fails.append(dict(key=key, what=what, case=jsonable(case)))

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def merge(self, part):
        """Merge the picklable result of a worker (see export)."""
        self.add(part["states"], part["transitions"], part["validated"], part["comparisons"])
        for s in part["samples"]:
            self.sample(s, 12)
        for k, v in part["notes"].items():
            self.notes[k] = v
        for k, v in part["known_hit"].items():
            self.known_hit[k] = v
        self.nfail += part["nfail"]
        self.fails = (self.fails + part["fails"])[:20]

    def export(self):
        return dict(states=self.states, transitions=self.transitions, validated=self.validated,
                    comparisons=self.comparisons, samples=self.samples[:3], notes=self.notes, fails=self.fails,
                    nfail=self.nfail, known_hit=self.known_hit)

    def finish(self, level):
        os.makedirs(EVID, exist_ok=True)
        wall = time.time() - self.t0
        cov = dict(self.notes)
        if level == "model_checking":
            cov.update(states=self.states, transitions=self.transitions,
                       traces_validated_against_impl=self.validated, comparisons=self.comparisons,
                       samples=self.samples or ["-"])
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=self.nfail)
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(jsonable(ev), f, indent=1)
        for k, w in self.known_hit.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, w))
        self.log("states=%d transitions=%d validated=%d comparisons=%d violations=%d" % (
            self.states, self.transitions, self.validated, self.comparisons, self.nfail))
        if self.nfail:
            rdir = os.path.join(EVID, "replay"); os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, self.pid + ".json")
            with open(path, "w") as f:
                json.dump(dict(property=self.pid, tier=self.tier, violations=self.nfail, first=self.fails), f, indent=1)
            for v in self.fails[:5]:
                print("  violated:", v["what"][:400])
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        if self.states == 0 or self.validated == 0:
            print("nothing explored"); return 2
        return 0


def load_known(pid):
    known = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, what = rest.split(" | ", 1)
                known[key.replace("key=", "", 1)] = what
    return known


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (bool, int, str)) or x is None:
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        return x if x == x and abs(x) != float("inf") else repr(x)
    if isinstance(x, (complex, np.complexfloating)):
        return [jsonable(x.real), jsonable(x.imag)]
    if hasattr(x, "tolist"):
        return jsonable(x.tolist())
    return repr(x)


def setup_jax(x64=True, threads=None):
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    sys.dont_write_bytecode = True
    src = os.path.join(REPO, "src")
    if sys.path[0] != src:
        sys.path.insert(0, src)
    import jax
    jax.config.update("jax_enable_x64", bool(x64))
    import ripplegw
    assert os.path.realpath(ripplegw.__file__).startswith(os.path.realpath(src) + os.sep), ripplegw.__file__
    return jax


def run_tasks(fn, args, procs=8):
    """Run fn(arg) for each arg in separate fresh processes; returns results in order."""
    import concurrent.futures as cf, multiprocessing as mp
    args = list(args)
    with cf.ProcessPoolExecutor(min(procs, len(args)), mp_context=mp.get_context("spawn"), max_tasks_per_child=1) as ex:
        return list(ex.map(_guard, [(fn, a) for a in args]))


def _guard(fa):
    fn, a = fa
    return fn(a)


class ImplError(Exception):
    """The implementation raised where it has to return a value."""


def from_repo(exc):
    """Whether an exception is to be blamed on the code under test.

    It is when it was raised there, or when the harness could not handle what the code returned: the same harness handles
    what the unchanged code returns. Failures of the surroundings (memory, files, processes, missing modules) are not."""
    import traceback
    if any(REPO + "/src/" in f.filename for f in traceback.extract_tb(exc.__traceback__)) or (
            exc.__cause__ is not None and ("/src/ripplegw" in str(exc.__cause__))):
        return True
    return isinstance(exc, (TypeError, ValueError, IndexError, KeyError, AttributeError, ArithmeticError)) and not isinstance(exc, UnicodeError)
