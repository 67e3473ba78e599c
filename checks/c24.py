"""Samplers over all keys of a range."""
import itertools
import numpy as np
from mc import core, laws as L


def run(ctx):
    L.per_model(ctx, "checks.c24", ["M_eta", "m1_m2"])
    ctx.notes["exhaustive"] = True


RANGES = [((1.0, 2.0), (1.0, 2.0)), ((10.0, 50.0), (0.1, 0.25)), ((5.0, 5.0), (0.2, 0.2)), ((5.0, 5.0), (1.0, 9.0)), ((1.0, 3.0), (2.0, 10.0)),
          ((1.0, 2.0), (5.0, 6.0)), ((5.0, 6.0), (1.0, 2.0)), ((0.0, 1.0), (0.0, 1.0)), ((-3.0, -1.0), (-2.0, 4.0)), ((1e-5, 1e5), (1e-9, 1e9)),
          ((1.0, np.nextafter(1.0, 2)), (0.25 - 1e-12, 0.25)), ((1, 3), (1, 2))]


def cdf_between(x, a, b):
    return np.clip((x - a) / (b - a), 0, 1)


def ks(x, F):
    x = np.sort(x)
    n = len(x)
    F = F(x)
    return max((np.arange(1, n + 1) / n - F).max(), (F - np.arange(n) / n).max()) * np.sqrt(n)


def part(ctx, name):
    import jax, jax.numpy as jnp
    import ripplegw as R
    make = dict(M_eta=R.get_M_eta_sampler, m1_m2=R.get_m1_m2_sampler)[name]
    nkeys = 200 if ctx.quick else 4000
    keys = [jax.random.PRNGKey(s) for s in sorted(set(range(nkeys)) | {2**k - 1 for k in range(9, 32)})]
    worst = 0.0
    for r1, r2 in RANGES:
        s = make(r1, r2)
        lo = np.array([r1[0], r2[0]], float)
        hi = np.array([r1[1], r2[1]], float)
        for n in ([1, 7] if ctx.quick else [1, 2, 7, 100]):
            X = np.stack([np.asarray(s(k, n)) for k in keys[: (60 if ctx.quick else 1000)]]) if n > 1 else np.asarray(jax.vmap(lambda k: s(k, n))(jnp.stack(keys)))
            ctx.add(states=len(X), transitions=len(X), validated=len(X), comparisons=X.size)
            if X.shape[1:] != (n, 2):
                ctx.fail("shape:" + name, "%s sampler returns shape %s for %d rows" % (name, X.shape[1:], n))
                continue
            inside(ctx, name, X.reshape(-1, 2), lo, hi, (r1, r2))
            # different keys, different samples (unless the ranges are single values)
            if (hi > lo).any() and (hi - lo).max() > 1e-3:
                rows = np.unique(X.reshape(len(X), -1), axis=0)
                if len(rows) != len(X):
                    ctx.fail("keys:" + name, "%s sampler: two keys give the same sample of %d rows from %s" % (name, n, (r1, r2)))
        # many rows: spread over the range
        N = 4000
        for k in keys[: (8 if ctx.quick else 100)]:
            x = np.asarray(s(k, N))
            ctx.add(states=1, transitions=1, validated=1, comparisons=2 * N)
            inside(ctx, name, x, lo, hi, (r1, r2))
            again = np.asarray(s(k, N))
            other = np.asarray(make(r1, r2)(k, N))
            comp = np.asarray(jax.jit(s, static_argnums=1)(k, N))
            if not ((x == again).all() and (x == other).all() and np.allclose(x, comp, rtol=1e-15, atol=0)):
                ctx.fail("same:" + name, "%s sampler: the same key gives different samples of %s" % (name, (r1, r2)))
            if (hi - lo < 1e-6).any():
                # a single value, or a range as narrow as rounding
                for c in (0, 1):
                    if hi[c] - lo[c] < 1e-9 and name == "M_eta" and not (np.abs(x[:, c] - lo[c]) <= 1e-9).all():
                        ctx.fail("degenerate:" + name, "%s sampler leaves the single value %r" % (name, lo[c]))
                continue
            U = [lambda z, c=c: cdf_between(z, lo[c], hi[c]) for c in (0, 1)]
            if name == "M_eta":
                T = [(x[:, 0], U[0]), (x[:, 1], U[1])]
                # the two are independent: their products of ranks
                u = U[0](x[:, 0]), U[1](x[:, 1])
                c = abs(np.corrcoef(*u)[0, 1]) * np.sqrt(N)
                if c > 5:
                    ctx.fail("independent:" + name, "chirp mass and mass ratio are correlated (%.2f standard errors) for %s" % (c, (r1, r2)))
            else:
                T = [(x[:, 0], lambda z: U[0](z) * U[1](z)), (x[:, 1], lambda z: 1 - (1 - U[0](z)) * (1 - U[1](z)))]
            for i, (v, F) in enumerate(T):
                d = ks(v, F)
                worst = max(worst, d)
                if d > 2.8:         # probability below 1e-6
                    ctx.fail("uniform:" + name, "%s sampler: column %d is not spread uniformly over %s (Kolmogorov-Smirnov %.2f)" % (name, i, (r1, r2), d))
    ctx.notes["largest_ks:" + name] = worst
    ctx.sample(dict(sampler=name, ranges=RANGES[:3], keys=len(keys)))


def inside(ctx, name, x, lo, hi, r):
    x = np.asarray(x, float)
    if name == "M_eta":
        bad = ((x < lo) | (x > hi) | ~np.isfinite(x)).any(1)
    else:
        # one of the two lies in each range, and the first is the larger
        a = (x[:, 0] >= lo[0]) & (x[:, 0] <= hi[0]) & (x[:, 1] >= lo[1]) & (x[:, 1] <= hi[1])
        b = (x[:, 1] >= lo[0]) & (x[:, 1] <= hi[0]) & (x[:, 0] >= lo[1]) & (x[:, 0] <= hi[1])
        bad = ~(a | b) | (x[:, 0] < x[:, 1]) | ~np.isfinite(x).all(1)
    if bad.any():
        ctx.fail("range:" + name, "%s sampler gives %s for the ranges %s" % (name, x[np.where(bad)[0][0]].tolist(), r))
