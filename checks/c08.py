"""Tidal parameter conversions against the published linear map in extended precision."""
import itertools
import numpy as np
from mc import core

LD = np.longdouble


def coeffs(eta, d):
    c1 = 1 + 7 * eta - 31 * eta**2
    c2 = d * (1 + 9 * eta - 11 * eta**2)
    c3 = d * (1 - LD(13272) / 1319 * eta + LD(8944) / 1319 * eta**2)
    c4 = 1 - LD(15910) / 1319 * eta + LD(32850) / 1319 * eta**2 + LD(3380) / 1319 * eta**3
    return c1, c2, c3, c4


def forward(l1, l2, eta, d):
    c1, c2, c3, c4 = coeffs(eta, d)
    p, m = l1 + l2, l1 - l2
    return LD(8) / 13 * (c1 * p + c2 * m), (c3 * p + c4 * m) / 2


def inverse(lt, dl, eta, d):
    c1, c2, c3, c4 = coeffs(eta, d)
    # [c1 c2; c3 c4] [p; m] = [13 lt / 8; 2 dl]
    a, b = 13 * lt / 8, 2 * dl
    det = c1 * c4 - c2 * c3
    p, m = (a * c4 - c2 * b) / det, (c1 * b - c3 * a) / det
    return (p + m) / 2, (p - m) / 2, det


def run(ctx):
    jax = core.setup_jax()
    import jax.numpy as jnp
    import ripplegw as R
    full = not ctx.quick
    worst = {}
    lam = [0, 1e-3, 0.3, 1, 2.5, 50, 400, 1234.5, 5000, 2e4]
    qs = [0.0] + list(np.geomspace(1e-16, 1, 50 if full else 34)) + [1.5, 2, 3, 5, 9, 30, 99] + list(np.arange(0.05, 2, 0.05))
    m1s = [1.4, 1.0, 2.0, 1.234, 30.0, 0.1] + (list(np.arange(1, 3, 0.1)) if full else [])
    for dt in (np.float64, np.float32):
        eps = LD(np.finfo(dt).eps)
        ratio = []
        for q in qs:
            ratio += [dt(1 + LD(q)), dt(1 / (1 + LD(q)))]
        x = y = dt(1)
        for _ in range(12):
            x, y = np.nextafter(x, dt(2)), np.nextafter(y, dt(0))
            ratio += [x, y]
        ratio = np.unique(np.array(ratio, dt))
        ll = np.array(list(itertools.product(lam, lam)), dt)
        # by masses, either order of the masses
        mm = np.unique(np.array([(dt(LD(m) * LD(r)), dt(m)) for m in m1s for r in ratio] + [(dt(m), dt(LD(m) * LD(r))) for m in m1s for r in ratio], dt), axis=0)
        byq = np.concatenate([np.repeat(ll, len(ratio), 0), np.tile(ratio, len(ll))[:, None]], 1)
        bym = np.concatenate([np.repeat(ll, len(mm), 0), np.tile(mm, (len(ll), 1))], 1)
        ctx.add(transitions=3 * (len(byq) + len(bym)))
        for kind, P in (("q", byq), ("m", bym)):
            v = P.astype(LD).T
            if kind == "q":
                q = v[2]
                eta, d = q / (1 + q)**2, np.abs(1 - q) / (1 + q)
                fw, bw = R.lambdas_to_lambda_tildes_from_q, R.lambda_tildes_to_lambdas_from_q
            else:
                eta, d = v[2] * v[3] / (v[2] + v[3])**2, np.abs(v[2] - v[3]) / (v[2] + v[3])
                fw, bw = R.lambdas_to_lambda_tildes, R.lambda_tildes_to_lambdas
            lt, dl = forward(v[0], v[1], eta, d)
            k = 32 * eps
            dd = np.minimum(np.sqrt(k), k / np.maximum(d, LD(1e-300)))
            hi = forward(v[0], v[1], eta, d + dd)
            scale = (v[0] + v[1])
            tol = [2 * np.abs(h - r) + 400 * eps * scale + LD(1e-30) for h, r in zip(hi, (lt, dl))]
            modes = {"arrays": fw, "jit vmap": lambda m: jax.jit(jax.vmap(fw))(m.T)}
            arg = jnp.asarray(P.T)
            for name, fn in modes.items():
                if name == "arrays":
                    got = fn(tuple(arg)) if kind == "q" else None
                    if got is None:
                        continue
                else:
                    got = fn(arg)
                got = [np.asarray(g) for g in got]
                ctx.add(states=len(P), validated=len(P), comparisons=2 * len(P))
                for j, nm in enumerate(("lambda_tilde", "delta_lambda_tilde")):
                    e = np.abs(got[j].astype(LD) - (lt, dl)[j]) / tol[j]
                    worst["%s %s" % (nm, kind)] = max(worst.get("%s %s" % (nm, kind), 0), float(np.nanmax(e)))
                    for i in np.where(~(e < 1))[0][:6]:
                        ctx.fail("forward", "%s of %s is %r, want %r [%s, %s, %s]" % (
                            nm, P[i].tolist(), got[j][i], float((lt, dl)[j][i]), kind, name, dt.__name__), params=P[i])
                eq = (P[:, 0] == P[:, 1]) & (d == 0)
                if np.abs(got[1][eq].astype(LD) / np.maximum(scale[eq], 1)).max() > 64 * eps:
                    ctx.fail("asymmetric", "equal masses and deformabilities give a non-zero asymmetric parameter", kind=kind)
            # inverse of the exactly rounded effective parameters
            T = np.stack([lt.astype(dt), dl.astype(dt)] + [P[:, j] for j in range(2, P.shape[1])])
            l1, l2, det = inverse(T[0].astype(LD), T[1].astype(LD), eta, d)
            h1, h2, _ = inverse(T[0].astype(LD), T[1].astype(LD), eta, d + dd)
            sz = (np.abs(13 * lt / 8) + np.abs(2 * dl)) * 60 / np.abs(det)
            # eta itself is known to a few eps, and every term of the determinant is of order one
            tl = [2 * np.abs(h1 - l1), 2 * np.abs(h2 - l2)]
            tl = [t + 40 * eps * sz * (1 + 1 / np.abs(det)) + LD(1e-30) for t in tl]
            back = [np.asarray(g) for g in jax.jit(jax.vmap(bw))(jnp.asarray(T.T))]
            ctx.add(states=len(P), validated=len(P), comparisons=2 * len(P))
            for j, w in enumerate((l1, l2)):
                e = np.abs(back[j].astype(LD) - w) / tl[j]
                e2 = np.abs(back[j].astype(LD) - v[j]) / (tl[j] * 2)
                worst["inverse %s" % kind] = max(worst.get("inverse %s" % kind, 0), float(np.nanmax(e)))
                for i in np.where(~(e < 1) | ~(e2 < 1))[0][:6]:
                    ctx.fail("inverse", "lambda_%d from (lambda_tilde, delta_lambda_tilde) of %s is %r, want %r [%s, %s]" % (
                        j + 1, P[i].tolist(), back[j][i], float(w[i]), kind, dt.__name__), params=P[i])
            # a round trip inside one compiled function
            rt = [np.asarray(g) for g in jax.jit(jax.vmap(lambda p: bw(jnp.concatenate([jnp.stack(fw(p)), p[2:]]))))(jnp.asarray(P))]
            ctx.add(states=len(P), validated=len(P), comparisons=2 * len(P))
            for j in (0, 1):
                # both directions use the same eta, so that only rounding remains
                e = np.abs(rt[j].astype(LD) - v[j]) / (40 * eps * sz * (1 + 1 / np.abs(det)) + LD(1e-30))
                worst["round trip %s" % kind] = max(worst.get("round trip %s" % kind, 0), float(np.nanmax(e)))
                for i in np.where(~(e < 1))[0][:6]:
                    ctx.fail("roundtrip", "lambda_%d of %s comes back as %r [%s, %s]" % (j + 1, P[i].tolist(), rt[j][i], kind, dt.__name__), params=P[i])
        ctx.sample(dict(by_masses=bym[1])); ctx.sample(dict(by_q=byq[-1]))
        # the two versions and both orientations of the mass ratio agree
        q = ratio
        L = np.array(list(itertools.product(lam[::2], lam[::3])), dt)
        a = np.concatenate([np.repeat(L, len(q), 0), np.tile(q, len(L))[:, None]], 1)
        d = np.abs(1 - a[:, 2].astype(LD)) / (1 + a[:, 2])
        dd = np.minimum(np.sqrt(64 * eps), 64 * eps / np.maximum(d, LD(1e-300)))
        f = jax.jit(jax.vmap(R.lambdas_to_lambda_tildes_from_q))
        g = jax.jit(jax.vmap(R.lambdas_to_lambda_tildes))
        one = np.ones(len(a), dt)
        A = [np.asarray(v) for v in f(jnp.asarray(a))]
        B = [np.asarray(v) for v in f(jnp.asarray(np.stack([a[:, 0], a[:, 1], 1 / a[:, 2]], 1)))]
        C = [np.asarray(v) for v in g(jnp.asarray(np.stack([a[:, 0], a[:, 1], a[:, 2], one], 1)))]
        D = [np.asarray(v) for v in g(jnp.asarray(np.stack([a[:, 0], a[:, 1], one, a[:, 2]], 1)))]
        tol = (a[:, 0] + a[:, 1]).astype(LD) * (400 * eps + 20 * dd) + LD(1e-30)
        ctx.add(states=len(a), validated=len(a), comparisons=6 * len(a))
        for nm, X in (("1/q", B), ("masses", C), ("masses exchanged", D)):
            for j in (0, 1):
                bad = ~(np.abs(X[j].astype(LD) - A[j]) < tol)
                for i in np.where(bad)[0][:5]:
                    ctx.fail("agree", "conversion by q and by %s disagree for %s: %r, %r" % (nm, a[i].tolist(), A[j][i], X[j][i]), params=a[i])
    # single sources, as lists, tuples and arrays
    for l1, l2, m1, m2 in itertools.product([0, 400], [0.0, 300.0], [1.4, 2], [1.4, 1]):
        w = [float(x) for x in forward(LD(l1), LD(l2), LD(m1 * m2) / LD(m1 + m2)**2, abs(LD(m1) - LD(m2)) / LD(m1 + m2))]
        for cont in ([l1, l2, m1, m2], (l1, l2, m1, m2), np.array([l1, l2, m1, m2], float), jnp.array([l1, l2, m1, m2], float)):
            got = [float(x) for x in R.lambdas_to_lambda_tildes(cont)]
            got += [float(x) for x in R.lambdas_to_lambda_tildes_from_q([cont[0], cont[1], m1 / m2])]
            b = [float(x) for x in R.lambda_tildes_to_lambdas([got[0], got[1], m1, m2])]
            b += [float(x) for x in R.lambda_tildes_to_lambdas_from_q((got[0], got[1], m2 / m1))]
            ctx.add(states=1, validated=1, comparisons=8)
            if not (np.allclose(got, w * 2, rtol=1e-6, atol=1e-4) and np.allclose(b, [l1, l2] * 2, rtol=1e-5, atol=1e-3)):
                ctx.fail("scalars", "tidal conversions of %s give %s and back %s" % ([l1, l2, m1, m2], got, b))
    ctx.notes.update(worst_error_over_tolerance=worst, exhaustive=True)
