"""Interleavings of two threads on the real code, under a scheduler that decides at every statement of the library who runs.

Preemption bound one: the first thread is stopped before statement p, the second runs to its end, the first goes on; for
every p. Preemption bound two: the first stops before p, the second before q, the first ends, the second ends; for all p, q.
"""
import ast, sys, threading, time
import numpy as np
from mc import core, ops

LIMIT = 60.0        # seconds after which a thread that does not come back counts as waiting for the other one


class Monitor:
    """Calls a function of the running thread at every scheduling point of the library's code."""
    TOOL = 4

    def __init__(self, files):
        import gc, types
        self.files, self.hooks, self.codes = files, {}, set()
        for o in gc.get_objects():
            if isinstance(o, types.FunctionType) and files.ours(o.__code__.co_filename):
                self.add(o.__code__)
        M = sys.monitoring
        M.use_tool_id(self.TOOL, "interleavings")

        def line(code, n):
            if n not in files.lines(code.co_filename):
                return M.DISABLE
            h = self.hooks.get(threading.get_ident())
            if h is not None and h[0] == "statement":
                h[1](code.co_filename, n)

        def start(code, offset):
            h = self.hooks.get(threading.get_ident())
            if h is not None and h[0] == "function":
                h[1](code.co_filename, code.co_name)
        M.register_callback(self.TOOL, M.events.LINE, line)
        M.register_callback(self.TOOL, M.events.PY_START, start)
        for c in self.codes:
            M.set_local_events(self.TOOL, c, M.events.LINE | M.events.PY_START)

    def add(self, code):
        import types
        if code not in self.codes:
            self.codes.add(code)
            for c in code.co_consts:
                if isinstance(c, types.CodeType):
                    self.add(c)


class Sched:
    """Two threads, one of which runs at any time."""

    def __init__(self, grain, mon):
        self.grain, self.mon = grain, mon

    def run(self, calls, stops):
        """calls: two functions. stops: per thread the index of the scheduling point before which it is stopped (or None).

        Order: thread 0 until its stop, thread 1 until its stop, thread 0 to its end, thread 1 to its end."""
        n = len(calls)
        go = [threading.Semaphore(0) for _ in range(n)]
        back = threading.Semaphore(0)
        done, out, count, where = [False] * n, [None] * n, [0] * n, [None] * n
        hooks = self.mon.hooks

        def body(i):
            stop = stops[i]

            def point(file, place):
                k = count[i]
                count[i] = k + 1
                if k == stop:
                    where[i] = "%s:%s" % (file.rsplit("/", 1)[-1], place)
                    back.release()
                    go[i].acquire()
            go[i].acquire()
            hooks[threading.get_ident()] = (self.grain, point)
            try:
                out[i] = calls[i]()
            except Exception as e:
                out[i] = "raises %s: %s" % (type(e).__name__, str(e)[:200])
            finally:
                hooks.pop(threading.get_ident(), None)
                done[i] = True
                back.release()
        T = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        for t in T:
            t.start()
        blocked = False
        for i in list(range(n)) * 2:
            if done[i]:
                continue
            go[i].release()
            if not back.acquire(timeout=LIMIT):
                blocked = True      # it waits for the other thread, which is let go on
        for t in T:
            t.join(LIMIT)
        return out, count, where, blocked, all(done)


class Files:
    """Statements of the library's source files."""

    def __init__(self):
        self.root = core.REPO + "/src/ripplegw"
        self.c = {}

    def ours(self, fn):
        return fn.startswith(self.root)

    def lines(self, fn):
        if fn not in self.c:
            self.c[fn] = {s.lineno for s in ast.walk(ast.parse(open(fn).read())) if isinstance(s, ast.stmt)}
        return self.c[fn]


def call(name, O, shared):
    """A repeatable call with its own arguments."""
    def f():
        B = ops.Buffers()
        B.b.update(shared)
        fn, args, kw = O[name](B)
        return ops.digest(fn(*args, **kw))
    return f


def points(grain, mon, f):
    """All scheduling points of a call, as places, in the order of the visits."""
    seq = []
    mon.hooks[threading.get_ident()] = (grain, lambda *p: seq.append(p))
    try:
        f()
    finally:
        del mon.hooks[threading.get_ident()]
    return seq


def ends(seq):
    """First and last visit of every place."""
    first, last = {}, {}
    for i, p in enumerate(seq):
        first.setdefault(p, i)
        last[p] = i
    return sorted(set(first.values()) | set(last.values()))


# (name, first call, second call, granularity, which points, preemptions)
def plan(quick):
    P = []
    for k in ("D", "Pv2", "NRT"):
        a, b = "%s:base:reuse" % k, "%s:other:reuse" % k
        P.append((k, a, b, "statement", ("first" if k == "D" else "own") if quick else "all", 1))
        if not quick:
            P.append((k + " functions", a, b, "function", "first", 2))
    pairs = [("NRT and D", "NRT:base:reuse", "D:other:reuse"), ("D and Pv2", "D:base:reuse", "Pv2:other:reuse"), ("D traced", "D:base:shape", "D:other:reuse")]
    for n, a, b in pairs:
        P.append((n, a, b, "function", "first", 1) if quick else (n, a, b, "statement", "ends", 1))
    P.append(("TF2", "TF2:base:reuse", "TF2:other:reuse", "statement", "all", 1))
    P.append(("TF2 and NRT", "TF2:base:reuse", "NRT:other:reuse", "function", "ends", 1))
    P.append(("TF2 twice", "TF2:base:reuse", "TF2:other:reuse", "statement", "fewer" if quick else "first", 2))
    P.append(("XAS", "XAS:base:reuse", "XAS:other:reuse", "function" if quick else "statement", "few" if quick else "first", 1))
    P.append(("front end", "front:D:base:kept", "front:Pv2:base:kept", "function", "few" if quick else "ends", 1))
    P.append(("front end again", "front:D_NRTidalv2:base:kept", "front:D:swap:kept", "function", "few" if quick else "ends", 1))
    # one instance for both threads, and one each: every statement of the front end itself
    for n, a, b in (("front end statements", "front:D:base:kept", "front:D:swap:kept"), ("front end models", "front:Pv2:base:kept", "front:D:swap:kept"), ("front end apart", "front:D:base:new", "front:Pv2:base:new")):
        P.append((n, a, b, "statement", "entry", 1))
    M = ["Mc_eta_to_ms:0:reuse", "Mc_eta_to_ms:1:reuse", "ms_to_Mc_eta:0:reuse", "lambdas_to_lambda_tildes:0:reuse", "lambdas_to_lambda_tildes:1:reuse", "lambda_tildes_to_lambdas:0:reuse",
         "lambda_tildes_to_lambdas:1:reuse", "lambdas_to_lambda_tildes_from_q:0:reuse", "lambda_tildes_to_lambdas_from_q:1:reuse", "get_chi_eff:0:reuse", "get_chi_eff:1:reuse", "noise:Sn_aLIGO", "noise:Sn_aLIGO:2",
         "noise:Sn_O2", "noise:Sn_LIGOI", "sampler:M:0", "sampler:M:1", "sampler:m:0", "sampler:m:1", "sampler:m:2", "match:0", "match:1", "match:3", "sg:0", "sg:1"]
    # the same statements on NumPy arrays, a hundred times faster
    V = ("D", "Pv2", "NRT", "TF2", "XAS")
    for x in V:
        for y in V:
            slow = "XAS" in (x, y)
            P.append(("fast %s, %s" % (x, y), "%s:base:dense" % x, "%s:other:dense" % y, "statement", ("first" if slow else "ends") if quick else ("ends" if x == "XAS" else "all"), 1))
    for x in V[:4]:
        for y in V[:4]:
            if x == y or not quick:
                P.append(("fast %s, %s twice" % (x, y), "%s:base:dense" % x, "%s:other:dense" % y, "statement", ("fewest" if x == "Pv2" else "fewer") if quick else "first", 2))
    # both stopped at or near the same place
    for x in V:
        if x != "XAS" or not quick:
            P.append(("fast %s near" % x, "%s:base:dense" % x, "%s:other:dense" % x, "statement", "ends", ("near", 1 if quick else 8)))
        else:
            P.append(("fast XAS near", "XAS:base:dense", "XAS:other:dense", "statement", "first", ("near", 0)))
    P.append(("fast XAS twice", "XAS:base:dense", "XAS:other:dense", "function", "first", 2))
    P.append(("small", M, M, "statement", "all", 1))
    P.append(("small twice", M, M, "statement", "all", 2))
    return P


def run(ctx):
    jobs = []
    for name, a, b, grain, which, bound in plan(ctx.quick):
        if isinstance(a, list):
            kind = lambda n: n.split(":")[0]
            for i, x in enumerate(a):
                ys = [y for y in b if kind(x) == kind(y)] if bound == 2 else b
                jobs.append((name, [(x, y) for y in ys], grain, which, bound, 0, 1, ctx.quick))
        else:
            heavy = a.split(":")[0]
            parts = 1 if name == "TF2" else {"XAS": 7, "D": 6, "Pv2": 8, "NRT": 6, "front": 3}.get(heavy, 8)
            if name.startswith("fast"):
                parts = 4 if "XAS" in name or bound != 1 else 1
            parts *= 1 if ctx.quick else 4
            jobs += [(name, [(a, b)], grain, which, bound, k, parts, ctx.quick) for k in range(parts)]
    jobs.sort(key=lambda j: 0 if j[0] == "XAS" else 1)
    tot = {}
    fast = [j for j in jobs if j[0].startswith("fast")]
    jobs = [j for j in jobs if not j[0].startswith("fast")]
    ctx.notes["not_run_on_numpy"] = []
    for j, r in zip(jobs + fast, _run(jobs) + _run(fast)):
        if "error" in r:
            print(r["error"]); raise SystemExit(2)
        if "skip" in r:
            ctx.notes["not_run_on_numpy"].append((j[0], r["skip"]))
            continue
        t = tot.setdefault(j[0], dict(schedules=0, points=0, preemptions=j[4] if isinstance(j[4], int) else 2, granularity=j[2], which_visits=j[3], waits=0, seconds=0))
        t["schedules"] += r["schedules"]
        t["points"] = max(t["points"], r["points"])
        t["waits"] += r["waits"]
        t["seconds"] += round(r["seconds"])
        ctx.add(states=r["schedules"], transitions=r["switches"], validated=r["schedules"], comparisons=2 * r["schedules"])
        for f in r["fails"]:
            ctx.fail(*f)
        ctx.nfail += max(0, r["nfail"] - len(r["fails"]))
        for s in r["samples"]:
            ctx.sample(s)
    ctx.notes["explored"] = tot
    ctx.notes["exhaustive"] = True


def _run(jobs):
    """Eight long-lived processes take the jobs one by one."""
    import concurrent.futures as cf, multiprocessing as mp, os
    os.environ["XLA_FLAGS"] = "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
    with cf.ProcessPoolExecutor(8, mp_context=mp.get_context("spawn")) as ex:
        return list(ex.map(_worker, jobs))


def _worker(job):
    import traceback
    try:
        t = time.time()
        if job[0].startswith("fast"):
            core.setup_jax()
            from mc import npshim
            prepare()
            try:
                # a stand-in that does not know what the code uses decides nothing
                with npshim.open_(), np.errstate(all="ignore"):
                    for n in job[1][0]:
                        f = call(n, _G, {})
                        a, b = f(), f()
                        if a != b:
                            return dict(skip="%s differs from call to call" % n)
            except Exception as e:
                return dict(skip="%s: %s" % (type(e).__name__, str(e)[:200]))
            with npshim.open_(), np.errstate(all="ignore"):
                r = explore(job)
        else:
            r = explore(job)
        r["seconds"] = time.time() - t
        return r
    except Exception:
        return dict(error=traceback.format_exc())


_G = {}
_M = []


def prepare():
    core.setup_jax()
    if not _G:
        import importlib, pkgutil
        import ripplegw.noise, ripplegw.FD_waveform, ripplegw.waveforms as W  # noqa
        for x in pkgutil.iter_modules(W.__path__):
            importlib.import_module("ripplegw.waveforms." + x.name)
        for g in ops.groups(False).values():
            _G.update(g)
        for k in ("D", "Pv2", "NRT", "TF2", "XAS"):
            _G.update(ops.model_ops(k, [("base", "dense"), ("other", "dense")]))
    if not _M:
        _M.append(Monitor(Files()))


def explore(job):
    name, pairs, grain, which, bound, part, parts, quick = job
    prepare()
    mon = _M[0]
    r = dict(schedules=0, switches=0, points=0, waits=0, fails=[], nfail=0, samples=[])
    sched = Sched(grain, mon)
    for a, b in pairs:
        shared = {}
        if a.startswith("front"):
            from ripplegw.FD_waveform import FD_waveform_generator as FD
            shared["front"] = FD()
        fa, fb = call(a, _G, shared), call(b, _G, shared)
        alone = fa(), fb()
        again = fa(), fb()
        sa, sb = points(grain, mon, fa), points(grain, mon, fb)
        pick = {"all": lambda s: list(range(len(s))), "ends": ends, "first": lambda s: sorted({p: i for i, p in reversed(list(enumerate(s)))}.values()),
                "few": lambda s: list(range(min(4, len(s)))) + list(range(max(4, len(s) - 4), len(s))),
                # statements of the shared baseline are stopped at in the run of model D
                "own": lambda s: sorted({p: i for i, p in reversed(list(enumerate(s))) if not p[0].endswith(("/IMRPhenomD.py", "/IMRPhenomD_utils.py"))}.values()),
                "entry": lambda s: [i for i, p in enumerate(s) if p[0].endswith("/FD_waveform.py")],
                "fewer": lambda s: sorted({p: i for i, p in reversed(list(enumerate(s)))}.values())[::3],
                "fewest": lambda s: sorted({p: i for i, p in reversed(list(enumerate(s)))}.values())[::6]}[which]
        pa, pb = pick(sa), pick(sb)
        r["points"] = max(r["points"], len(pa))
        if bound == 1:
            S = [(p, None) for p in pa]
        elif bound == 2:
            S = [(p, q) for p in pa for q in pb]
        else:       # the second stops near the visit with the same index
            S = sorted({(p, p + d) for p in pa for d in range(-bound[1], bound[1] + 1) if 0 <= p + d < len(sb)})
        for k, st in enumerate(S):
            if k % parts != part:
                continue
            out, count, where, blocked, ended = sched.run((fa, fb), st)
            r["schedules"] += 1
            r["switches"] += 2 + (st[1] is not None)
            r["waits"] += blocked
            what = "%s || %s, first stopped before %s%s" % (a, b, where[0], "" if st[1] is None else ", second before %s" % where[1])
            bad = None
            if not ended:
                bad = "deadlock"
            else:
                for o, w, n in zip(out, alone, (a, b)):
                    if o != w:
                        bad = "%s gives %s instead of %s" % (n, o, w)
            if bad:
                r["nfail"] += 1
                if len(r["fails"]) < 5:
                    r["fails"].append(("%s||%s" % (a.split(":")[0], b.split(":")[0]), "%s: %s" % (what, bad)))
                if r["nfail"] >= 20:
                    return r
        if again != alone:
            r["nfail"] += 1
            r["fails"].append(("alone", "%s or %s gives two results when called twice" % (a, b)))
        r["samples"].append(dict(first=a, second=b, points=len(pa), schedules=len(S), last=what if S and part < len(S) else None))
    r["samples"] = r["samples"][:1] if part == 0 else []
    return r
