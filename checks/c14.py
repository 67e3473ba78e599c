"""Each sample depends on its own frequency only: all ordered selections of a set of frequencies, and many grids,
against every frequency evaluated alone."""
import itertools
import numpy as np
from mc import core, laws as L, models as m
from mc.states import COLS, GT, base, col, describe

MODELS = ["D", "XAS", "Pv2", "TF2", "NRT", "NRTn"]


def sources(model):
    b = [dict(eta=0.24), dict(eta=0.2, chi1=0.6, chi2=-0.4, M=10.0, tc=0.1, phic=0.3), dict(eta=0.25, chi1=-0.8, chi2=-0.5, M=200.0, Mfref=0.03),
         dict(eta=0.08, chi1=0.9, chi2=0.3, iota=1.0, Mfref=3e-6)]
    if model in L.TIDAL:
        b = [dict(x, l1=l[0], l2=l[1]) for x, l in zip(b, [(0, 0), (400, 600), (0.5, 900), (5000, 10)])]
    if model == "Pv2":
        b = [dict(x, s1x=p, s2y=q, iota=0.7) for x, (p, q) in zip(b, [(0, 0), (0.3, 0.4), (-0.4, 0.1), (0.2, -0.6)])]
    return np.array([[base(**x)[n] for n in COLS] for x in b])


def alphabet(model):
    c = m.CUT.get(model, 0.2)
    c = c if np.isfinite(c) else 0.2
    return [0.003, 0.0141, 0.0179, 0.05, c * 0.97, c * 1.03, 4e-4]


def arrays(model, n, quick):
    """All frequency arrays [*, n] (Mf) of that length."""
    A = alphabet(model)
    c = m.CUT.get(model, 0.2)
    c = c if np.isfinite(c) else 0.2
    if n <= 4:
        return np.array(list(itertools.product(A[:6] if n == 4 and quick else A, repeat=n)))
    out = []
    for lo, hi in ((4e-4, 0.05), (0.001, c * 0.999), (0.002, c * 1.5), (c * 1.001, c * 4), (0.012, 0.02), (c * 0.95, c * 1.05), (4e-4, 30.0)):
        u = np.linspace(lo, hi, n)
        out += [u, u[::-1], np.geomspace(lo, hi, n), np.roll(u, n // 3), np.concatenate([u[::2], u[1::2]])]
    u = np.linspace(0.001, c * 0.9, n)
    for k in (0, n // 2, n - 1):             # one sample beyond the band, in any place
        v = u.copy(); v[k] = c * 1.2; out.append(v)
        v = np.full(n, 2 * c); v[k] = 0.03; out.append(v)
        v = np.full(n, 0.02); v[k] = 4e-4; out.append(v)
    return np.array(out)


def lengths(model, quick):
    if quick:
        return [1, 2, 3, 64] if model == "XAS" else [1, 2, 3, 4, 5, 64, 257]
    return [1, 2, 3, 4, 5, 17, 64, 100, 257, 1024, 4097]


LONG = [1000, 4097, 20001, 65537, 131071]


def long_positions(n):
    """The ends, both sides of every power of two and multiple of ten thousand, and places between."""
    k = [np.arange(8), n - 1 - np.arange(64), np.linspace(0, n - 1, 64).astype(int)]
    k += [b + np.arange(-2, 3) for b in [2**j for j in range(3, 18)] + list(range(10000, n, 10000)) + [n // 2, n // 4, n // 8]]
    k = np.unique(np.concatenate(k))
    return k[(k >= 0) & (k < n)]


def long_arrays(model, n):
    c = m.CUT.get(model, 0.2)
    c = c if np.isfinite(c) else 0.2
    u = np.linspace(4e-4, c * 0.99, n)
    return [u, np.geomspace(c * 1.5, 4e-4, n)]


def long_job(a):
    """Long arrays, [(positions, frequencies there, value in the array, value alone)]."""
    model, ns, quick = a
    core.setup_jax()
    S = sources(model)[1:2]
    res = []
    for n in ns:
        for F in long_arrays(model, n):
            k = long_positions(n)
            h = m.evaluate(model, S, F[None], chunk=1)[0][:, k]
            one = m.evaluate(model, np.repeat(S, len(k), 0), F[k][:, None], chunk=1024)[..., 0].T
            res.append((n, k, F[k], h, one))
    return "ok", res


def job(a):
    try:
        return long_job(a[1:]) if a[0] == "long" else _job(a)
    except Exception as e:
        import traceback
        tb = traceback.format_exc()
        if core.from_repo(e) or "/src/ripplegw/" in tb:
            return "error", tb
        raise


def _job(a):
    """(model, lengths, tier) -> {length: values [sources, arrays, 2, n]}"""
    model, ns, quick = a
    core.setup_jax()
    S = sources(model)
    res = {}
    for n in ns:
        F = singles(model, quick)[:, None] if n == 1 else arrays(model, n, quick)
        T = np.repeat(S, len(F), 0)
        f = np.tile(F, (len(S), 1))
        ck = 4096 if n < 6 else 64
        h = m.evaluate(model, T, f, chunk=ck)
        res[n] = h.reshape(len(S), len(F), *h.shape[1:])
    return "ok", res


def singles(model, quick):
    return np.unique(np.concatenate([arrays(model, n, quick).ravel() for n in lengths(model, quick) if n > 1] + [alphabet(model)]))


def long_compare(ctx, mod, st, r):
    if st == "error":
        ctx.fail("exception:" + mod, "%s raised for a long frequency array: %s" % (mod, r[-500:]))
        return
    S = sources(mod)[1:2]
    for n, k, F, h, one in r:
        ctx.add(states=len(k), transitions=len(k), validated=len(k), comparisons=2 * len(k))
        sz = np.sqrt((np.abs(one)**2).sum(0))
        bad = ~(np.abs(h - one).max(0) <= L.rounding(S, F, 1e-10)[0] * sz)
        for i in np.where(bad)[0][:3]:
            ctx.fail("long:" + mod, "%s: element %d of an array of %d frequencies (Mf=%.9g) is %s, alone %s" % (mod, k[i], n, F[i], h[:, i], one[:, i]), state=describe(S[0]))
        ctx.nfail += max(0, int(bad.sum()) - 3)


def run(ctx):
    jobs = []
    for mod in ["XAS"] + [x for x in MODELS if x != "XAS"]:
        ls = lengths(mod, ctx.quick)
        jobs += [(mod, [n], ctx.quick) for n in ls] if mod == "XAS" else [(mod, ls[::2], ctx.quick), (mod, ls[1::2], ctx.quick)]
    jobs += [("long", mod, [n for n in LONG if n > 30000 or not ctx.quick] if mod == "XAS" and ctx.quick else LONG + ([] if ctx.quick else [262145, 1000003]), ctx.quick) for mod in MODELS]
    got = {x: {} for x in MODELS}
    for j, (st, r) in zip(jobs, core.run_tasks(job, jobs, 8)):
        if j[0] == "long":
            long_compare(ctx, j[1], st, r)
            continue
        mod, ns, _ = j
        if st == "error":
            ctx.fail("exception:" + mod, "%s raised for a frequency array of length in %s: %s" % (mod, ns, r[-500:]))
            continue
        got[mod].update(r)
    for mod in MODELS:
        S = sources(mod)
        if 1 not in got[mod]:
            continue
        one = got[mod][1][..., 0]                               # [sources, freqs, 2]
        fs = singles(mod, ctx.quick)
        for n, h in sorted(got[mod].items()):
            if n == 1:
                ctx.add(states=one.shape[0] * one.shape[1], validated=one.shape[0] * one.shape[1])
                continue
            F = arrays(mod, n, ctx.quick)
            want = one[:, np.searchsorted(fs, F)].transpose(0, 1, 3, 2)
            ctx.add(states=h.shape[0] * h.shape[1], validated=h.shape[0] * h.shape[1], comparisons=h.size,
                    transitions=h.shape[0] * h.shape[1] * n)
            sz = np.sqrt((np.abs(want)**2).sum(2, keepdims=True))
            tol = np.stack([L.rounding(S[[i]], F, 1e-10, 1e-14) for i in range(len(S))])[:, :, None]
            d = np.abs(h - want)
            bad = ~(d <= tol * sz)
            w = ctx.notes.setdefault("worst_error_over_tolerance", {})
            with np.errstate(all="ignore"):
                w["%s:%d" % (mod, n)] = float(np.nanmax(np.where(sz > 0, d / (tol * sz), 0)))
            for i, j in list(zip(*np.where(bad.any((2, 3)))))[:5]:
                k = int(np.where(bad[i, j].any(0))[0][0])
                ctx.fail("grid:" + mod, "%s: value at Mf=%.9g depends on the array: %s alone, %s as element %d of %d (%s...), %s" % (
                    mod, F[j, k], want[i, j, :, k], h[i, j, :, k], k, n, F[j][:6].tolist(), describe(S[i])),
                    model=mod, state=describe(S[i]), Mf=F[j], index=k)
            ctx.nfail += max(0, int(bad.any((2, 3)).sum()) - 5)
        ctx.sample(dict(model=mod, lengths=lengths(mod, ctx.quick), arrays_of_three=arrays(mod, 3, True)[100]))
    # shape and type of the result, without any transformation
    jax = core.setup_jax()
    import jax.numpy as jnp
    for mod in ("D", "Pv2", "TF2", "NRT"):
        S = sources(mod)[:1]
        for n in (0, 1, 2, 7):
            f = jnp.asarray(np.linspace(20, 80, n) if n else np.zeros(0))
            out = m.function(mod)(f, jnp.asarray(m.theta(mod, S)[0]), float(m.fref(S)[0]))
            ctx.add(states=1, validated=1)
            if len(out) != 2 or any(o.shape != (n,) or o.dtype != np.complex128 for o in out):
                ctx.fail("shape:" + mod, "%s: result for %d frequencies has shapes %s, types %s" % (mod, n, [o.shape for o in out], [o.dtype for o in out]))
    ctx.notes["exhaustive"] = True
