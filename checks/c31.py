"""Forward- and reverse-mode derivatives of the conversions, noise curves, inner product and match."""
import itertools
import numpy as np
from mc import core, laws as L


def run(ctx):
    L.per_model(ctx, "checks.c31", ["conversions", "noise", "overlap", "waveform overlap"])
    ctx.notes["exhaustive"] = True


def part(ctx, name):
    import time
    t = time.time()
    dict(conversions=conversions, noise=noise, overlap=overlap)[name.split()[-1]](ctx, *([name] if "overlap" in name else []))
    ctx.notes["seconds:" + name] = round(time.time() - t, 1)


def slope(f, x, k, h):
    """Sixth-order central difference of f along coordinate k with relative step h, and an estimate of its error."""
    d = np.zeros_like(x)
    s = h * max(abs(x[k]), 1e-3)
    d[k] = s
    v = [np.asarray(f(x + c * d), float) for c in (-3, -2, -1, 1, 2, 3)]
    six = (-v[0] + 9 * v[1] - 45 * v[2] + 45 * v[3] - 9 * v[4] + v[5]) / (60 * s)
    four = (v[1] - 8 * v[2] + 8 * v[3] - v[4]) / (12 * s)
    size = np.max(np.abs(v), axis=0)
    return six, np.abs(six - four) + 20 * 1e-16 * size / s


def check(ctx, key, f, pts, h=1e-4, rel=1e-7, fj=None, what="", scale=None):
    """Jacobians of f at all points, both modes, against slopes (numpy function f: x -> vector)."""
    import jax, jax.numpy as jnp
    fj = fj or (lambda x: jnp.stack([jnp.asarray(v) for v in f(x)]) if isinstance(f(x), (tuple, list)) else jnp.atleast_1d(f(x)))
    g = jax.jit(jax.vmap(fj))
    pts = np.asarray(pts, float)
    n, p = pts.shape
    J = [np.asarray(jax.jit(jax.vmap(t(fj)))(pts)) for t in (jax.jacfwd, jax.jacrev)]
    W = ctx.notes.setdefault("worst_error_over_tolerance", {})
    for k in range(p):
        step = h * np.maximum(np.abs(pts[:, k]), 1e-3)
        if scale is not None:
            step = np.minimum(step, scale(pts, k))
        v = []
        for c in (-3, -2, -1, 1, 2, 3):
            y = pts.copy()
            y[:, k] += c * step
            v.append(np.asarray(g(y), float))
        s = step[:, None]
        six = (-v[0] + 9 * v[1] - 45 * v[2] + 45 * v[3] - 9 * v[4] + v[5]) / (60 * s)
        four = (v[1] - 8 * v[2] + 8 * v[3] - v[4]) / (12 * s)
        size = np.max(np.abs(v), axis=0)
        tol = rel * np.abs(six) + 3 * np.abs(six - four) + 1e-14 * size / s + 1e-9 * size / np.maximum(np.abs(pts[:, k]), 1e-3)[:, None] * 0.01
        for mode, j in zip(("forward", "reverse"), J):
            with np.errstate(all="ignore"):
                e = np.abs(j[:, :, k] - six)
            tol = np.where(e == 0, np.maximum(tol, 1e-300), tol)
            bad = ~(e <= tol)
            ctx.add(states=n, validated=n, transitions=6 * n, comparisons=e.size)
            W[key + ":" + mode] = max(W.get(key + ":" + mode, 0.0), float(np.nanmax(e / tol)))
            for i in np.where(bad.any(1))[0][:4]:
                ctx.fail("%s:%s" % (key, mode), "%s-mode derivative of %s with respect to argument %d is %s, its slope %s, at %s" % (mode, what or key, k, j[i, :, k].tolist(), six[i].tolist(), pts[i].tolist()), point=pts[i])
            ctx.nfail += max(0, int(bad.any(1).sum()) - 4)


def conversions(ctx):
    import jax.numpy as jnp
    import ripplegw as R
    q = ctx.quick
    ms = [0.02, 1.0, 1.1, 1.4, 1.39, 2.0, 3.0, 9.0, 30.0, 36.0, 150.0, 1e4] if q else list(np.geomspace(0.02, 1e4, 60))
    pairs = [(a, b) for a in ms for b in ms if a != b and max(a, b) / min(a, b) < 1e3]
    st = lambda o: jnp.stack([jnp.asarray(x) for x in o])
    gap = lambda P, k: np.abs(P[:, 0] - P[:, 1]) / 300
    check(ctx, "ms_to_Mc_eta", None, pairs, fj=lambda x: st(R.ms_to_Mc_eta(x)), scale=gap)
    me = [(M, e) for M in (0.9, 26.0, 1e4) for e in ([0.24999, 0.2499, 0.249, 0.24, 0.222, 0.2, 0.16, 0.1, 0.05, 0.01, 1e-3] if q else list(np.linspace(0.001, 0.2499, 150)))]
    check(ctx, "Mc_eta_to_ms", None, me, fj=lambda x: st(R.Mc_eta_to_ms(x)), scale=lambda P, k: np.where(k == 1, (0.25 - P[:, 1]) / 300, np.inf), rel=1e-6)
    check(ctx, "get_f_isco", None, [(x,) for x in np.geomspace(1e-3, 1e40, 60)], fj=lambda x: jnp.atleast_1d(R.get_f_isco(x[0])))
    check(ctx, "get_chi_eff", None, [(a, b, c, d) for a, b in pairs[::3] for c in (-1, -0.3, 0, 0.7) for d in (-0.5, 0, 0.9)], fj=lambda x: jnp.atleast_1d(R.get_chi_eff(x)))
    lam = [(a, b) for a in (0, 0.5, 1, 30, 400, 5000) for b in (0, 0.7, 1, 100, 5000)]
    mm = [(2.0, 1.3), (1.4, 1.39), (1.41, 1.0), (30.0, 5.0)]
    check(ctx, "lambdas_to_lambda_tildes", None, [(a, b, c, d) for a, b in lam for c, d in mm], fj=lambda x: st(R.lambdas_to_lambda_tildes(x)), scale=lambda P, k: np.where(k >= 2, np.abs(P[:, 2] - P[:, 3]) / 300, np.inf), rel=1e-6)
    qs = [0.1, 0.4, 0.7, 0.9, 0.99, 1.2, 3.0]
    sc = lambda P, k: np.where(k == 2, np.abs(P[:, 2] - 1) / 300, np.inf)
    check(ctx, "lambdas_to_lambda_tildes_from_q", None, [(a, b, c) for a, b in lam for c in qs], fj=lambda x: st(R.lambdas_to_lambda_tildes_from_q(x)), scale=sc, rel=1e-6)
    # the determinant of the inverse map vanishes near q = 0.3 (and its inverse)
    qs = [0.6, 0.7, 0.8, 0.9, 0.99, 1.2]
    check(ctx, "lambda_tildes_to_lambdas_from_q", None, [(a, b, c) for a, b in lam for c in qs], fj=lambda x: st(R.lambda_tildes_to_lambdas_from_q(x)), scale=lambda P, k: np.where(k == 2, np.abs(P[:, 2] - 1) / 1000, np.inf), rel=1e-5)
    check(ctx, "lambda_tildes_to_lambdas", None, [(a, b, c, d) for a, b in lam for c, d in mm[:3]], fj=lambda x: st(R.lambda_tildes_to_lambdas(x)), scale=lambda P, k: np.where(k >= 2, np.abs(P[:, 2] - P[:, 3]) / 1000, np.inf), rel=1e-5)
    ctx.sample(dict(part="conversions", point=pairs[3]))


def noise(ctx):
    """Between two tabulated frequencies the derivative is the slope of the line; outside it is not nan."""
    import os
    import jax
    from ripplegw import noise as N
    from checks.c23 import CURVES
    data = np.load(os.path.join(core.VERIF, "data", "noise.npz"))
    for table, fn, rng, asd in CURVES:
        t = data[table]
        f, v = t[:, 0], t[:, 1]
        v = v**2 if asd else v
        v = np.where(v == 0, np.inf, v)
        with np.errstate(all="ignore"):
            s = (v[1:] - v[:-1]) / (f[1:] - f[:-1])
        ok = np.isfinite(v[1:]) & np.isfinite(v[:-1]) & (f[1:] > f[:-1])
        S = getattr(N, fn)
        for w in (0.5, 0.1, 0.9):
            x = f[:-1] + w * (f[1:] - f[:-1])
            for mode, g in (("forward", jax.jit(jax.vmap(lambda y: jax.jvp(S, (y,), (1.0,))[1]))), ("reverse", jax.jit(jax.vmap(jax.grad(S))))):
                d = np.asarray(g(x), float)
                scale = np.abs(s) + (v[1:] + v[:-1]) / f[1:]
                with np.errstate(all="ignore"):
                    bad = ok & ~(np.abs(d - s) <= 1e-6 * scale)
                ctx.add(states=ok.sum(), validated=ok.sum(), transitions=ok.sum(), comparisons=ok.sum())
                for i in np.where(bad)[0][:4]:
                    ctx.fail("noise:" + fn, "%s-mode derivative of %s at %r Hz is %r, the slope between the tabulated frequencies %r" % (mode, fn, x[i], d[i], s[i]))
    check(ctx, "noise:Sn_LIGOI", None, [(x,) for x in np.geomspace(40.5, 8e3, 200)], fj=lambda x: N.Sn_LIGOI(x), what="Sn_LIGOI")


def overlap(ctx, name):
    import jax, jax.numpy as jnp
    import ripplegw as R
    q = ctx.quick
    if name == "overlap":
        # amplitude and phase as simple functions of two parameters each, on small grids, all combinations
        A = lambda f, t: f**(-7 / 6.0) * jnp.exp(-t[0] * f / 50)
        P = lambda f, t: t[1] * 40 * (f / 30)**(-5 / 3.0) + t[2] * f
        grids = [np.arange(20, 20 + n) * df for n, df in ((5, 1.0), (33, 1.0), (40, 2.0))]
        T1 = [(0.3, 1.0, 0.02), (0.0, 0.7, -0.1)]
        T2 = [(a, b, c) for a in (0.31, 1.0) for b in (1.02, 0.8) for c in (0.021, 0.3)]
        noises = [lambda f: 1 + 0 * f, lambda f: 1 + (f / 40)**2, lambda f: jnp.where(f < 30, jnp.inf, 1 + f)]
    else:
        # TaylorF2 has no piecewise linear parts
        from ripplegw.waveforms.TaylorF2 import gen_TaylorF2
        from ripplegw import noise as N
        full = lambda f, t: gen_TaylorF2(f, jnp.array([t[0], t[1], t[2], 0.1, 1.5, 2.0, 400.0, 0.0, 0.0]), 20.0)
        A = lambda f, t: jnp.abs(full(f, t)) * 1e21
        P = lambda f, t: jnp.angle(full(f, t))
        grids = [np.arange(20, 180) * 1.0]
        T1 = [(26.0, 0.24, 0.3)]
        T2 = [(26.1, 0.241, 0.28), (24.0, 0.2, -0.4)] + ([] if q else [(30.0, 0.23, 0.3), (20.0, 0.16, 0.7), (27.0, 0.24, 0.0)])
        noises = [lambda f: N.Sn_aLIGO(f) * 1e46]
    rel = 1e-6
    for gi, fs in enumerate(grids):
        fs = jnp.asarray(fs)
        lo, hi = R.get_eff_pads(fs)
        for ni, Sn in enumerate(noises):
            if q and (gi + ni) % 2 == 1:
                continue
            if np.isinf(np.asarray(Sn(fs))).all():
                continue
            pts = [a + b for a in T1 for b in T2]
            k = len(T1[0])

            def margin(x):
                """How far the largest correlation is above the second largest elsewhere: the maximum has to be unique."""
                h = [np.asarray(A(fs, x[i:i + k]) * jnp.exp(1j * P(fs, x[i:i + k]))) for i in (0, k)]
                z = np.abs(np.fft.ifft(np.concatenate([lo, h[0].conj() * h[1] / np.asarray(Sn(fs)), hi])))
                s = np.sort(z)
                return s[-1] / s[-2] - 1
            m = [p for p in pts if margin(np.array(p)) > 1e-3]
            ctx.notes["points_with_two_maxima"] = ctx.notes.get("points_with_two_maxima", 0) + len(pts) - len(m)
            if m:
                check(ctx, "%s:match" % name, None, m, h=1e-6 if name == "overlap" else 1e-5, rel=rel, fj=lambda x: jnp.atleast_1d(R.get_match(fs, lo, hi, Sn, x[:k], x[k:], A, P, None, None)), what="get_match on grid %d, noise %d" % (gi, ni))
            pts = [p + (dt,) for p in pts for dt in ((0.0, 0.003) if name == "overlap" else (0.001,))]
            check(ctx, "%s:inner" % name, None, pts, h=1e-5, rel=rel, fj=lambda x: jnp.atleast_1d(R.get_phase_maximized_inner_product(x[-1], fs, Sn, x[:k], x[k:2 * k], A, P, None, None)), what="inner product on grid %d, noise %d" % (gi, ni))
    ctx.sample(dict(part=name, point=pts[0]))
