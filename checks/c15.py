"""Every composition of jit and vmap up to a depth, and every argument container, against plain calls."""
import itertools
import numpy as np
from mc import core, laws as L, models as m
from mc.states import COLS, base, col, describe

MODELS = ["D", "Pv2", "Pv2m", "TF2", "TF2t", "NRT", "NRTt", "NRTn", "XAS"]
NF = 12


def sources(model):
    b = [dict(eta=0.24, M=30.0), dict(eta=0.2, chi1=0.6, chi2=-0.4, M=10.0, tc=0.1, phic=0.3, iota=0.5),
         dict(eta=0.25, chi1=-0.6, chi2=-0.6, M=100.0, iota=np.pi / 2), dict(eta=0.08, chi1=0.9, chi2=0.3, iota=1.0)]
    if model in L.TIDAL:
        b = [dict(x, l1=l[0], l2=l[1]) for x, l in zip(b, [(0, 0), (400, 600), (450, 450), (5000, 10)])]
    if model.startswith("Pv2"):
        b = [dict(x, s1x=p, s2y=q) for x, (p, q) in zip(b, [(0, 0), (0.3, 0.4), (-0.4, 0.1), (0.2, -0.6)])]
    return np.array([[base(**x)[n] for n in COLS] for x in b])


def words(model, quick):
    """Sequences of transformations, innermost first: J jit, T / F / R vmap over parameters / frequency arrays /
    reference frequencies, S vmap over the single frequencies of an array."""
    if model == "XAS" and quick:
        return ["J", "T", "S", "JTFR"]
    if model in ("Pv2m", "TF2t", "NRT", "NRTn") and quick:
        return ["JT", "RS"]
    if model in ("D", "Pv2", "NRTt") and quick:
        return ["J", "T", "S", "JT", "RJ", "FTJ", "JTJ", "STJ", "RTF"]
    out = []
    for n in range(1, 4 if not quick else 3):
        for w in itertools.product("JTFRS", repeat=n):
            if all(w.count(v) <= 1 for v in "TFRS") and not ("F" in w and "S" in w) and "JJJ" not in "".join(w):
                out.append("".join(w))
    if quick:
        out = [w for w in out if w not in ("TR", "TF", "FR", "SR", "ST", "TS", "JJ")] + ["JTJ", "TRJ", "RTF", "STJ", "JFT", "SRT"]
    return out


def inputs(model):
    S = sources(model)
    th = m.theta(model, S)
    f = np.stack([np.geomspace(20, 400, NF), np.linspace(25, 2000, NF)])
    fr = np.array([20.0, 55.5])
    return S, th, f, fr


def reference(model):
    """Plain calls: [theta, f, fr, 2, NF]."""
    import jax.numpy as jnp
    S, th, f, fr = inputs(model)
    fn = m.function(model)
    nf = 1 if model == "XAS" else 2
    return np.array([[[np.stack(fn(jnp.asarray(f[j]), jnp.asarray(th[i]), float(fr[k]))) for k in range(2)]
                      for j in range(nf)] for i in range(len(th))])


def apply(word, fn):
    import jax
    order = []
    for c in word:
        if c == "J":
            fn = jax.jit(fn)
        else:
            ax = {"T": (None, 0, None), "F": (0, None, None), "S": (0, None, None), "R": (None, None, 0)}[c]
            fn = jax.vmap(fn, in_axes=ax)
            order.insert(0, c)
    return fn, order


def composed(model, word):
    """The composed function on all inputs its word batches over; [theta, f, fr, 2, NF] of those it covers."""
    import jax.numpy as jnp
    S, th, f, fr = inputs(model)
    g = m.function(model)
    fn, order = apply(word, lambda x, p, r: jnp.stack(g(x, p, r)))
    args = [f if "F" in word else f[0], th if "T" in word else th[1], fr if "R" in word else fr[1]]
    h = np.asarray(fn(*[jnp.asarray(a) for a in args]))
    # a vmap over single frequencies puts the frequency axis where it was applied; innermost values are [2]
    axes = order + ["p"] + ([] if "S" in word else ["n"])
    want = ["T", "F", "R", "p", "n" if "S" not in word else "S"]
    h = h.transpose([axes.index(a) for a in want if a in axes])
    for i, a in enumerate("TFR"):
        if a not in axes:
            h = np.expand_dims(h, i)
    return h


def job(a):
    import traceback
    kind, model, arg = a
    try:
        core.setup_jax()
        if kind == "others":
            ctx = core.Ctx(*arg)
            others(ctx)
            return "ok", ctx.export()
        if kind == "plain":
            return "ok", (reference(model), containers(model, arg))
        if kind == "words":
            return "ok", {w: composed(model, w) for w in arg}
    except Exception as e:
        tb = traceback.format_exc()
        if core.from_repo(e) or "/src/ripplegw/" in tb:
            return "error", tb
        raise


def containers(model, quick):
    """Plain calls with every combination of argument containers, and with integers where values are integers."""
    import jax
    import jax.numpy as jnp
    S, th, f, fr = inputs(model)
    fn = m.function(model)
    p = th[0].copy()                                    # non-spinning face-on source: many whole numbers
    if model != "Pv2m":
        p[0] = round(p[0])
    else:
        p[:2] = [round(p[0]), round(p[1])]
    whole = [int(v) if v == int(v) else float(v) for v in p]
    x = np.arange(20, 20 + 3 * NF, 3)
    ref = np.stack(fn(jnp.asarray(x, float), jnp.asarray(p), 20.0))
    T = {"list": list(map(float, p)), "tuple": tuple(map(float, p)), "numpy": p, "jax": jnp.asarray(p), "ints in a list": whole,
         "ints in a tuple": tuple(whole), "numpy scalars": [np.float64(v) for v in p], "jax scalars": [jnp.asarray(v) for v in p]}
    F = {"numpy": x.astype(float), "jax": jnp.asarray(x, float), "numpy ints": x, "jax ints": jnp.asarray(x)}
    Rf = {"float": 20.0, "int": 20, "numpy": np.float64(20), "jax": jnp.asarray(20.0), "jax int": jnp.asarray(20), "numpy 0-d": np.array(20.0)}
    out = {}
    combos = list(itertools.product(T, F, Rf))
    if model == "XAS":
        combos = [("list", "numpy", "int"), ("ints in a tuple", "jax ints", "jax"), ("numpy", "numpy ints", "numpy 0-d")]
    elif quick:
        combos = [c for c in combos if sum(x != y for x, y in zip(c, ("list", "numpy", "float"))) <= 1] + [
            ("ints in a list", "jax ints", "int"), ("ints in a tuple", "numpy ints", "jax int"), ("jax", "jax", "jax"), ("jax scalars", "numpy ints", "numpy 0-d")]
    for t, a, r in combos:
        before = repr((T[t], np.asarray(F[a]).tobytes()))
        out["/".join((t, a, r))] = np.stack(fn(F[a], T[t], Rf[r]))
        assert repr((T[t], np.asarray(F[a]).tobytes())) == before or out.update(modified=np.zeros(1)) is None
    # numbers with all their digits, as Python floats and as arrays that are traced
    p, x, r = p * (1 + 1.23456789012e-5) + 1.23456789012e-5, x + 0.123456789012, 20.1234567890123
    want = np.stack(jax.jit(fn)(jnp.asarray(x), jnp.asarray(p), jnp.asarray(r)))
    T = {"list": list(map(float, p)), "tuple": tuple(map(float, p)), "numpy scalars": [np.float64(v) for v in p]}
    for t, a, b in [("list", x, r)] if model == "XAS" else [("list", x, r), ("tuple", jnp.asarray(x), np.array(r)), ("numpy scalars", x, np.float64(r))]:
        out["digits/%s/%s/%s" % (t, type(a).__name__, type(b).__name__)] = ref * (np.stack(fn(a, T[t], b)) / want)
    return ref, out


def run(ctx):
    jobs = [("others", "the scalar functions", (ctx.pid, ctx.tier, ctx.seed))]
    for mod in MODELS[::-1]:
        w = words(mod, ctx.quick)
        jobs += [("plain", mod, ctx.quick)]
        k = (2 if ctx.quick else 1) if mod == "XAS" else 6
        jobs += [("words", mod, w[i:i + k]) for i in range(0, len(w), k)]
    ref, res = {}, []
    for j, (st, r) in zip(jobs, core.run_tasks(job, jobs, 8)):
        if st == "error":
            ctx.fail("exception:%s" % j[1], "%s raised under %s: %s" % (j[1], j[2] if j[0] == "words" else j[0], r[-600:]), traceback=r[-3000:])
        elif j[0] == "others":
            ctx.merge(r)
        elif j[0] == "plain":
            ref[j[1]] = r[0]
            res.append((j, r[1]))
        else:
            res.append((j, r))
    W = ctx.notes.setdefault("worst_error_over_tolerance", {})

    def check(key, model, got, want, what, **case):
        sz = np.sqrt((np.abs(want)**2).sum(-2, keepdims=True))
        with np.errstate(all="ignore"):
            e = np.where(sz > 0, np.abs(got - want) / np.where(sz > 0, sz, 1), np.where(got == want, 0, np.inf))
        # for equal masses sqrt(1 - 4 eta) is the square root of a rounding error
        tol = np.full((want.shape[0],) + (1,) * (want.ndim - 1), 1e-9 if model not in ("XAS", "TF2", "TF2t") else 1e-8)
        if len(tol) == len(sources(model)):
            tol[2] = 1e-5
        if model in ("TF2t", "NRTt"):
            tol = np.maximum(tol, 1e-6)
        W["%s:%s" % (model, key)] = max(W.get("%s:%s" % (model, key), 0), float(np.max(e / tol)))
        n = int(np.prod(got.shape[:-2]) or 1)
        ctx.add(states=n, validated=n, comparisons=got.size)
        if not (e <= tol).all():
            ctx.fail("%s:%s" % (key, model), "%s: %s differs from the plain call by %.3g" % (model, what, float(np.nanmax(e))), **case)

    for (kind, mod, arg), r in res:
        if mod not in ref:
            continue
        if kind == "words":
            for w, h in r.items():
                ctx.add(transitions=len(w))
                want = ref[mod]
                if "T" not in w:
                    want = want[1:2]
                if "F" not in w:
                    want = want[:, :1]
                elif want.shape[1] == 1:
                    h = h[:, :1]
                if "R" not in w:
                    want = want[:, :, 1:2]
                if h.shape != want.shape:
                    ctx.fail("shape:" + mod, "%s: shape %s under %s, want %s" % (mod, h.shape, w, want.shape))
                    continue
                check("transformations", mod, h, want, "result under transformations %s (innermost first)" % " ".join(w), word=w)
            ctx.sample(dict(model=mod, words=list(r)[:6]))
        else:
            want, out = r
            for k, h in out.items():
                if k == "modified":
                    ctx.fail("modified:" + mod, "%s modified an argument" % mod)
                    continue
                if h.shape != want.shape:
                    ctx.fail("shape:" + mod, "%s: shape %s with containers %s" % (mod, h.shape, k))
                    continue
                ctx.add(transitions=3)
                check("containers", mod, h, want, "result with containers %s (parameters/frequencies/reference frequency)" % k, containers=k)
    ctx.notes["exhaustive"] = True


def others(ctx):
    """The scalar functions, noise curves and overlap functions."""
    jax = core.setup_jax()
    import jax.numpy as jnp
    import ripplegw as R
    from ripplegw import noise
    from ripplegw.waveforms.SineGaussian import gen_SineGaussian_hphc as sg
    fns = {
        "Mc_eta_to_ms": (R.Mc_eta_to_ms, [[26, 0.24], [30.0, 0.25], [2.5, 0.1]]),
        "ms_to_Mc_eta": (R.ms_to_Mc_eta, [[30, 20], [20, 30], [1.4, 1.4], [50.0, 3.0]]),
        "lambdas_to_lambda_tildes": (R.lambdas_to_lambda_tildes, [[400, 600, 2, 1], [0, 10, 1.4, 1.4], [5.0, 0.5, 1.2, 1.9]]),
        "lambdas_to_lambda_tildes_from_q": (R.lambdas_to_lambda_tildes_from_q, [[400, 600, 0.5], [0, 10, 1], [5.0, 0.5, 3]]),
        "lambda_tildes_to_lambdas": (R.lambda_tildes_to_lambdas, [[400, 60, 2, 1], [0, 10, 1.4, 1.4], [5.0, 0.5, 1.2, 1.9]]),
        "lambda_tildes_to_lambdas_from_q": (R.lambda_tildes_to_lambdas_from_q, [[400, 60, 0.5], [0, 10, 1], [5.0, 0.5, 3]]),
        "get_chi_eff": (R.get_chi_eff, [[30, 20, 0, 1], [30.0, 20.0, 0.5, -0.3], [1, 2, -1, 0.2]]),
        "get_f_isco": (lambda p: R.get_f_isco(p[0]), [[3], [2e30], [1.4]]),
        "gen_SineGaussian_hphc": (lambda p: sg(jnp.asarray([-0.1, -0.01, 0.0, 0.004, 0.3]), jnp.asarray(p)), [[10, 100, 1, 0, 0], [3.5, 60.0, 1e-21, 1.0, 0.7], [9, 50.0, 2, 4.0, 1]]),
    }
    for nm, (fn, pts) in fns.items():
        plain = [np.hstack([np.ravel(x) for x in jax.tree.leaves(fn(list(p)))]).astype(complex) for p in pts]
        P = np.array(pts, float)
        stack = lambda p, fn=fn: jnp.hstack([jnp.ravel(x) for x in jax.tree.leaves(fn(p))])
        for n in range(1, 4):
            for w in itertools.product("JV", repeat=n):
                if w.count("V") > 2:
                    continue
                g, depth = stack, 0
                for c in w:
                    if c == "J":
                        g = jax.jit(g)
                    else:
                        g, depth = jax.vmap(g), depth + 1
                for i, p in enumerate(P):
                    if depth == 0:
                        got = [np.asarray(g(jnp.asarray(p)))]
                        want = [plain[i]]
                    elif i == 0:
                        a = jnp.asarray(P if depth == 1 else np.stack([P, P[::-1]]))
                        got = list(np.asarray(g(a)).reshape(-1, len(plain[0])))
                        want = plain if depth == 1 else plain + plain[::-1]
                    else:
                        continue
                    ctx.add(states=len(got), validated=len(got), comparisons=sum(map(len, want)), transitions=n)
                    for a, b in zip(got, want):
                        if not np.allclose(a, b, rtol=1e-9, atol=1e-12 * max(1, np.abs(b).max()) if nm != "gen_SineGaussian_hphc" else 1e-12 * np.abs(b).max()):
                            ctx.fail("scalar:" + nm, "%s under %s gives %s, plainly %s" % (nm, "".join(w), a, b))
        for p, want in zip(pts, plain):
            for mk in (tuple, lambda q: np.array(q, float), lambda q: jnp.asarray(np.array(q, float)), lambda q: [jnp.asarray(v) for v in q], lambda q: [np.float64(v) for v in q]):
                got = np.hstack([np.ravel(x) for x in jax.tree.leaves(fn(mk(p)))])
                ctx.add(states=1, validated=1, comparisons=len(want))
                if not np.allclose(got, want, rtol=1e-9, atol=1e-12 * max(np.abs(want).max(), 1 if nm != "gen_SineGaussian_hphc" else 0)):
                    ctx.fail("scalar:" + nm, "%s with %s gives %s, with a list %s" % (nm, type(mk(p)).__name__, got, want))
    # noise curves
    f = np.array([5.0, 9.99, 10.0, 15.0, 40.0, 41.0, 150.0, 777.7, 4000.0, 8192.0, 20000.0])
    for nm in [n for n in dir(noise) if n.startswith("Sn_")]:
        fn = getattr(noise, nm)
        want = np.array([float(fn(x)) for x in f])
        G = dict(plain=fn(f), jax=fn(jnp.asarray(f)), jit=jax.jit(fn)(f), vmap=jax.vmap(fn)(jnp.asarray(f)), jitvmap=jax.jit(jax.vmap(fn))(f),
                 vmapjit=jax.vmap(jax.jit(fn))(jnp.asarray(f)), two=fn(f[:10].reshape(2, 5)), tail=fn(f[::-1])[::-1])
        for k, got in G.items():
            got = np.asarray(got).ravel()
            ctx.add(states=1, validated=1, comparisons=len(got))
            if not np.array_equal(np.isinf(got), np.isinf(want[:len(got)])) or not np.allclose(got[np.isfinite(got)], want[:len(got)][np.isfinite(got)], rtol=1e-12, atol=0):
                ctx.fail("noise:" + nm, "%s called as %s gives %s, one by one %s" % (nm, k, got, want))
    # overlaps
    n = 16
    fs = np.arange(1, n + 1) * 2.0
    k = np.arange(n)
    h = [np.exp(0.1j * k * k) / (1 + k), np.exp(0.2j * k) * (1 + 0.1 * k), (1 + 0.3j * k)]
    Sn = 1.0 + (k - 5.0)**2
    dts = np.array([0.0, 0.01, -0.13])
    H = np.stack(h)
    ip = R.get_phase_maximized_inner_product_arr
    plain = np.array([[[float(ip(t, fs, Sn, a, b)) for t in dts] for b in H] for a in H])
    va = jax.vmap(jax.vmap(jax.vmap(ip, (0, None, None, None, None)), (None, None, None, None, 0)), (None, None, None, 0, None))
    lo, hi = R.get_eff_pads(jnp.asarray(fs))
    mt = R.get_match_arr
    plm = np.array([[float(mt(lo, hi, Sn, a, b)) for b in H] for a in H])
    vm = jax.vmap(jax.vmap(mt, (None, None, None, None, 0)), (None, None, None, 0, None))
    for nm, g, args, want in (("inner product", va, (dts, fs, Sn, H, H), plain), ("match", vm, (lo, hi, Sn, H, H), plm)):
        for k, fn in (("vmap", g), ("jit of vmap", jax.jit(g))):
            got = np.asarray(fn(*[jnp.asarray(a) for a in args]))
            ctx.add(states=want.size, validated=want.size, comparisons=want.size)
            if not np.allclose(got, want, rtol=1e-10, atol=1e-12):
                ctx.fail("overlap:" + nm, "%s under %s differs by %.3g" % (nm, k, np.abs(got - want).max()))
