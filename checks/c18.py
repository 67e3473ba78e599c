"""Histories of calls: every ordered pair (or triple) of operations, each result compared with that of a fresh process."""
import time
import numpy as np
from mc import core, ops


def run(ctx):
    G = ops.groups(ctx.quick)
    plan = []
    for g in G:
        depth = 2
        if not ctx.quick and g in ("TF2",):
            depth = 3
        plan.append(("seq", g, depth, ctx.quick, None))
    # where one call takes seconds: alternating with one of each of the other operations
    plan.append(("mixed", "XAS", 0, ctx.quick, None))
    if not ctx.quick:
        for g in ("D", "Pv2", "NRT"):
            plan.append(("triples", g, 3, ctx.quick, None))
        plan.append(("triples", "misc", 3, ctx.quick, None))
    plan.sort(key=lambda p: ["seqXAS", "mixedXAS"].index(p[0] + p[1]) if p[0] + p[1] in ("seqXAS", "mixedXAS") else 5)
    names = {}
    for g in G:
        for n in G[g]:
            names.setdefault(n, g)
    # results of fresh processes
    fresh = [("fresh", g, 0, ctx.quick, n) for n, g in names.items()]
    many = [("many", g, 2 if ctx.quick or g == "XAS" else 3, ctx.quick, None) for g in ("XAS", "Pv2", "NRT", "D", "TF2", "Pv2m", "NRTt", "TF2t", "NRTn")]
    res = core.run_tasks(_task, plan + many + fresh)
    alphabets(ctx, res[len(plan):len(plan) + len(many)], many)
    res = res[:len(plan)] + res[len(plan) + len(many):]
    ref = {}
    for r in res[len(plan):]:
        if "error" in r:
            print(r["error"]); raise SystemExit(2)
        (n, d, changed, const), = r["steps"]
        ref[n] = d
        ctx.add(states=1, transitions=1)
        if changed:
            ctx.fail("arguments:" + n, "%s: %s" % (n, changed))
        if const:
            ctx.fail("data:" + n, "%s changes data of the library: %s" % (n, const))
    work = [n for n in ref if not ref[n].startswith("raises")]
    ctx.notes["operations"] = len(ref)
    ctx.notes["operations_that_raise"] = len(ref) - len(work)
    pairs = set()
    lib = {}
    for p, r in zip(plan, res):
        if "error" in r:
            print(r["error"]); raise SystemExit(2)
        S = r["steps"]
        lib["%s:%s" % p[:2]] = r["states"]
        hist = []
        for i, (n, d, changed, const) in enumerate(S):
            hist.append(n)
            if i:
                pairs.add((S[i - 1][0], n))
            ctx.add(states=1, transitions=1, validated=1, comparisons=1)
            if d != ref[n]:
                ctx.fail("history:" + n, "%s gives another result (%s) after the %d calls ending in %s than in a fresh process (%s)" % (n, d, i, hist[-4:-1], ref[n]), history=hist[-40:])
            if changed:
                ctx.fail("arguments:" + n, "%s after %s: %s" % (n, hist[-3:-1], changed))
            if const:
                ctx.fail("data:" + n, "%s changes data of the library: %s" % (n, const))
        ctx.sample(dict(history=hist[:6], length=len(hist), kind=p[0], group=p[1]))
    ctx.notes["ordered_pairs_of_operations"] = len(pairs)
    ctx.notes["distinct_library_states_visited"] = lib
    ctx.notes["exhaustive"] = True


def alphabets(ctx, res, many):
    """Histories over many nearly equal sources, of the library's statements on NumPy arrays."""
    N = ctx.notes["histories_on_numpy"] = {}
    for (_, g, depth, _, _), r in zip(many, res):
        if "error" in r:
            print(r["error"]); raise SystemExit(2)
        if "skip" in r:
            N[g] = r["skip"]
            continue
        N[g] = dict(sources=r["sources"], calls=r["calls"], every_history_of_length=depth)
        ctx.add(states=r["calls"], transitions=r["calls"], validated=r["calls"], comparisons=r["calls"])
        for n, i, h in r["fails"]:
            ctx.fail("history:%s:%s" % (g, n), "%s of source %s gives another result after the %d calls ending in %s than in a fresh process" % (g, n, i, h[-4:]), history=h)


def variants(model):
    """Sources that agree in something that a key might be made of: name -> (f, theta, f_ref)."""
    f = np.geomspace(10.0, 3500.0, 40)
    t = ops.theta(model)
    V = dict(base=(f, t, 20.0))

    def add(name, f=f, t=t, r=20.0, **ch):
        x = np.array(t)
        for k, v in ch.items():
            x[int(k[1:])] = v
        V[name] = (f, x, r)
    for i in range(len(t)):
        add("parameter %d" % i, **{"i%d" % i: t[i] * 0.93})
        if i < len(t) - 4:
            add("parameter %d slightly" % i, **{"i%d" % i: t[i] * (1 - 1e-9)})
    for i in range(len(t)):
        if t[i] != 0 and 2 <= i < len(t) - 4:
            add("sign of parameter %d" % i, **{"i%d" % i: -t[i] if model[0] not in "TN" or i < 4 else t[i] / 2})
    if model != "Pv2m":
        Mc, eta = t[:2]
        add("same total mass", i0=Mc / eta**0.6 * 0.2**0.6, i1=0.2)
        add("same component product", i0=Mc * (eta / 0.2)**0.1, i1=0.2)
    d = np.sqrt(1 - 4 * t[1]) if model != "Pv2m" else (t[0] - t[1]) / (t[0] + t[1])
    a, b = (4, 7) if model.startswith("Pv2") else (2, 3)
    w1, w2 = (1 + d) / 2, (1 - d) / 2
    for k, (u, v) in {"weighted by masses": (w1, w2), "weighted by squares": (w1**2, w2**2), "as a sum": (1, 1)}.items():
        for e in (0.1, -0.2):
            add("same spins %s %+.1f" % (k, e), **{"i%d" % a: t[a] + e, "i%d" % b: t[b] - e * u / v})
    sw = t.copy()
    if model.startswith("Pv2"):
        sw[2:5], sw[5:8] = t[5:8], t[2:5]
        c, s = np.cos(0.4), np.sin(0.4)
        add("turned", i2=c * t[2] - s * t[3], i3=s * t[2] + c * t[3], i5=c * t[5] - s * t[6], i6=s * t[5] + c * t[6])
    else:
        sw[2:4] = t[3], t[2]
    add("swapped", t=sw)
    if len(ops.TH[model]) == 6:
        add("tides swapped", i4=t[5], i5=t[4])
        add("tides as a sum", i4=t[4] - 20, i5=t[5] + 20)
        add("no tides", i4=0.0, i5=0.0)
    add("reference", r=20.0 + 1e-8)
    add("other reference", r=33.0)
    g = f.copy()
    g[5:9] *= 1.01
    add("inner frequencies", f=g)
    add("reversed frequencies", f=f[::-1].copy())
    add("fewer frequencies", f=f[:-1].copy())
    add("frequencies of the same sum", f=f + np.where(np.arange(40) % 2, 1e-3, -1e-3))
    return V


def many(model, depth, quick):
    """All histories of a length over the alphabet, against children forked before the first call."""
    import os, select, signal, warnings
    from mc import npshim, models as m
    from ripplegw.FD_waveform import FD_waveform_generator  # noqa
    fn = m.function(model)
    V = variants(model)
    names = list(V)
    if depth == 3:
        names = [n for n in names if not n.startswith(("sign", "parameter"))] + [n for n in names if n.endswith("slightly")][:3]

    def one(n):
        f, t, r = V[n]
        return ops.digest(fn(f.copy(), t.copy(), r))
    with npshim.open_(), np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ref = {}
        for n in names:
            r, w = os.pipe()
            pid = os.fork()
            if not pid:
                try:
                    try:
                        d = one(n), one(n)
                        d = d[0] if d[0] == d[1] else "ERROR: two calls differ"
                    except Exception as e:
                        d = "ERROR %s: %s" % (type(e).__name__, str(e)[:200])
                    os.write(w, d.encode())
                finally:
                    os._exit(0)
            os.close(w)
            if not select.select([r], [], [], 60)[0]:
                os.kill(pid, signal.SIGKILL)        # it waits for a thread of JAX that a child does not have
            ref[n] = os.read(r, 4000).decode()
            os.close(r)
            os.waitpid(pid, 0)
            if ref[n].startswith("ERROR") or not ref[n]:
                return dict(skip="%s: %s" % (n, ref[n]))
        # a stand-in that does not know what the code uses decides nothing
        fails, hist, calls = [], [], 0
        for i in ops.pair_sequence(len(names), depth):
            n = names[i]
            try:
                d = one(n)
            except Exception as e:
                return dict(skip="%s: %s" % (type(e).__name__, str(e)[:200]))
            hist.append(n)
            calls += 1
            if d != ref[n]:
                fails.append((n, calls - 1, hist[-12:]))
                if len(fails) > 5:
                    break
    return dict(fails=fails, calls=calls, sources=len(names))


def reduced(g, O):
    if g == "misc":
        return [n for n in O if ":1" in n or ":0:reuse" in n or "fail" in n or n.endswith("aLIGO")][:16]
    return [n for n in O if n.split(":", 1)[1] in ("base:reuse", "inner:reuse", "fref:reuse", "other:reuse", "base:shape", "base:badtheta", "ext:reuse")][:7]


def _task(p):
    kind, g, depth, quick, name = p
    import traceback, os
    os.environ["XLA_FLAGS"] = "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
    try:
        core.setup_jax()
        import ripplegw.noise, ripplegw.FD_waveform  # noqa
        import importlib, pkgutil, ripplegw.waveforms as W
        for x in pkgutil.iter_modules(W.__path__):
            importlib.import_module("ripplegw.waveforms." + x.name)
        if kind == "many":
            return many(g, depth, quick)
        G = ops.groups(quick)
        O = G[g]
        B = ops.Buffers()
        if kind == "fresh":
            seq = [name]
        elif kind == "seq":
            names = list(O)
            seq = [names[i] for i in ops.pair_sequence(len(names), depth)]
        elif kind == "triples":
            names = reduced(g, O)
            seq = [names[i] for i in ops.pair_sequence(len(names), depth)]
        elif kind == "mixed":
            x = list(O)[0]
            seq = [x]
            other = list(G["others"])
            if quick:
                other = [n for n in other if n.split(":")[0] in ("D", "Pv2", "NRT", "TF2", "noise", "match")]
                other = other[:3] + other[-2:]
            for n in other:
                seq += [n, x]
            O = dict(O, **G["others"])
        const0, s = ops.library_state()
        states = {s}
        steps = []
        t0 = time.time()
        for n in seq:
            d, changed = ops.perform(O[n], B)
            c, s = ops.library_state()
            states.add(s)
            bad = [k for k in const0 if k in c and c[k] != const0[k]]
            steps.append((n, d, changed, ", ".join(bad[:5])))
            if bad:
                const0 = c
        return dict(steps=steps, states=len(states), time=time.time() - t0)
    except Exception:
        return dict(error=traceback.format_exc())
