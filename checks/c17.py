"""Single against double precision. Each runs in its own process; both get the same (single-precision) arguments."""
import itertools
import numpy as np
from mc import core, laws as L, models as m, refcheck as R
from mc.states import COLS, COL, GT, base, col, physical, j_along_l, masses

MODELS = ["XAS", "Pv2", "D", "TF2", "NRT", "TF2t", "NRTt", "Pv2m", "NRTn"]


def sources(model, quick):
    rows = []
    etas = [0.24, 0.249, 0.2, 0.16, 0.1, 0.06] if quick else [0.2499, 0.249, 0.245, 0.24, 0.23, 0.22, 0.2, 0.18, 0.16, 0.13, 0.1, 0.08, 0.06, 0.05]
    if model.endswith("t"):
        etas = [e for e in etas if 0.16 <= e < 0.249]
    spins = [(0, 0), (0.5, -0.3), (-0.6, 0.4), (0.9, 0.8), (-0.9, -0.8)]
    lams = [(0, 0), (400, 600), (0.5, 0.9), (3000, 100)] if model in L.TIDAL else [(0, 0)]
    plane = [(0, 0, 0, 0), (0.3, 0, 0, 0), (0, -0.3, 0.2, 0.1)] if model.startswith("Pv2") else [(0, 0, 0, 0)]
    axes = (etas, spins, lams, plane, (2.8, 10.0, 30.0, 60.0, 150.0, 500.0), (1.0, 400.0, 3e4), (0.4, np.pi / 2))
    for e, s, l, p, M, D, i in itertools.product(*axes):
        d = base(eta=e, chi1=s[0], chi2=s[1], l1=l[0], l2=l[1], s1x=p[0], s1y=p[1], s2x=p[2], s2y=p[3], M=M, D=D, iota=i,
                 tc=0.01, phic=0.7, Mfref=20 * M * GT)
        rows.append([d[n] for n in COLS])
    S = physical(np.array(rows))
    S = S[col(S, "Mfref") < 0.1]
    if model.startswith("Pv2"):
        S = S[j_along_l(S, 0.05)]
    return S, sum(len(rows) // len(a) * (len(a) - 1) for a in axes)


F = np.geomspace(20.0, 2040.0, 40)


def inputs(model, quick):
    S, mv = sources(model, quick)
    r = lambda x: np.asarray(x, np.float32).astype(np.float64)
    return S, mv, r(np.tile(F, (len(S), 1))), r(m.theta(model, S)), r(m.fref(S))


def worker(a):
    model, quick, bits = a
    import traceback
    try:
        jax = core.setup_jax(x64=bits == 64)
        S, _, f, th, fr = inputs(model, quick)
        t = np.float64 if bits == 64 else np.float32
        h = m.evaluate(model, S, f=f, th=th, fr=fr, dtype=t, chunk=1024)
        import jax.numpy as jnp
        # also outside of any compiled function, one source; and the types
        k = len(S) // 2
        e = m.function(model)(jnp.asarray(f[k], t), jnp.asarray(th[k], t), t(fr[k])) if model != "XAS" or not quick else None
        return dict(h=h, eager=None if e is None else np.stack([np.asarray(x) for x in e]), types=None if e is None else [str(x.dtype) for x in e], k=k)
    except Exception as e:
        tb = traceback.format_exc()
        return dict(error=tb, repo="/src/ripplegw/" in tb)


def run(ctx):
    tasks = [(mo, ctx.quick, b) for mo in MODELS for b in (32, 64)]
    res = core.run_tasks(worker, tasks, 8)
    W = ctx.notes.setdefault("worst_error_over_tolerance", {})
    for model in MODELS:
        a, b = (res[tasks.index((model, ctx.quick, x))] for x in (32, 64))
        for r in (a, b):
            if "error" in r:
                if not r["repo"]:
                    print(r["error"]); raise SystemExit(2)
                ctx.fail("exception:" + model, "%s raised: %s" % (model, r["error"][-500:]))
        if "error" in a or "error" in b:
            continue
        S, mv, f, th, fr = inputs(model, ctx.quick)
        Mf = f * (col(S, "M") * GT)[:, None]
        h, want = a["h"], b["h"]
        if a["types"] is not None and a["types"] != ["complex64"] * 2:
            ctx.fail("type:" + model, "%s returns %s in 32-bit mode" % (model, a["types"]))
        tol = tolerance(model, S, Mf)
        den = np.sqrt((np.abs(want)**2).sum(1))
        peak = np.nanmax(den * f**(7 / 6.0), 1, keepdims=True) * f**(-7 / 6.0)
        fin = np.isfinite(h).all(1)
        with np.errstate(all="ignore"):
            e = np.abs(h - want).max(1) / np.maximum(den, 1e-3 * peak)
            e = np.where((h == want).all(1), 0, e)
        # at the end of the band rounding decides on which side a frequency lies
        edge = m.CUT.get(model, np.inf)
        skip = np.abs(Mf / edge - 1) < 1e-5
        if model in L.TIDAL:
            skip |= Mf > 0.2
        e = np.where(skip, 0, e)
        bad = ~(e <= tol) | ~fin
        ctx.add(states=2 * len(S), validated=len(S), comparisons=e.size * 2, transitions=mv)
        W[model] = float(np.nanmax(e / tol))
        ctx.sample(dict(model=model, state=L.describe(S[len(S) // 2])))
        ii = np.where(bad.any(1))[0]
        ctx.nfail += max(0, len(ii) - 10)
        for i in ii[:10]:
            j = int(np.where(bad[i])[0][0])
            ctx.fail("single:" + model, "%s: 32-bit strain %s, 64-bit %s at %.6g Hz (off by %.3g, allowed %.3g) in %s" % (
                model, h[i, :, j], want[i, :, j], f[i, j], e[i, j], tol[i, j], L.describe(S[i])), state=L.describe(S[i]))
        if a["eager"] is not None:
            k = a["k"]
            x = np.abs(a["eager"] - want[k]).max(0) / np.maximum(den[k], 1e-3 * peak[k])
            x = np.where(skip[k] | (a["eager"] == want[k]).all(0), 0, x)
            ctx.add(states=1, comparisons=x.size)
            if not (x <= tol[k]).all():
                j = int(np.argmax(x / tol[k]))
                ctx.fail("eager:" + model, "%s: uncompiled 32-bit strain off by %.3g at %.6g Hz in %s" % (model, x[j], f[k, j], L.describe(S[k])), state=L.describe(S[k]))
    ctx.notes["exhaustive"] = True


def tolerance(model, S, Mf):
    eps = 1.2e-7
    whole, diff = L.size(S, Mf)
    dm = np.sqrt(1 - 4 * col(S, "eta"))[:, None]
    t = eps * (20 * whole + 200)
    if model not in ("TF2", "TF2t", "Pv2", "Pv2m"):
        # the time shift that moves the peak to zero is a small difference of fitted derivatives: known to a fraction of M
        t = t + 0.04 * np.minimum(Mf / 0.1, 1)
    elif model[0] == "T":
        # powers of velocities that no longer make sense
        t = t * np.maximum(1, Mf / 0.1)**2
    # masses follow from sqrt(1 - 4 eta)
    t = t + eps / np.maximum(dm, 0.02) * diff
    return t
