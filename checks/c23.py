"""Noise curves against their tables, at every entry and between every two neighbours."""
import os
import numpy as np
from mc import core

CURVES = [("aLIGO", "Sn_aLIGO", "f_range_aLIGO", True), ("ce", "Sn_ce", "f_range_ce", True), ("et", "Sn_et", "f_range_et", True),
          ("aLIGOZeroDetHighPower", "Sn_aLIGOZeroDetHighPower", "f_range_aLIGOZeroDetHighPower", False),
          ("O3a_Livingston_ASD", "Sn_O3a", "f_range_O3a", True), ("O2_ASD", "Sn_O2", "f_range_O2", True)]


def check(ctx, name, got, want, f, rel, what):
    got = np.asarray(got, float)
    ctx.add(states=got.size, transitions=got.size, validated=got.size, comparisons=got.size)
    with np.errstate(all="ignore"):
        bad = ~((got == want) | (np.isfinite(want) & (np.abs(got - want) <= rel * np.abs(want)))) | ~(got > 0)
    for i in np.where(bad.ravel())[0][:5]:
        ctx.fail("%s:%s" % (what.split()[0], name), "%s is %r at %r Hz, want %r (%s)" % (name, got.ravel()[i], f.ravel()[i], want.ravel()[i], what), f=f.ravel()[i])
    ctx.nfail += max(0, int(bad.sum()) - 5)


def run(ctx):
    core.setup_jax()
    import jax, jax.numpy as jnp
    from ripplegw import noise
    data = np.load(os.path.join(core.VERIF, "data", "noise.npz"))
    inf = np.inf
    for table, fn, rng, asd in CURVES:
        S = getattr(noise, fn)
        t = data[table]
        f, v = t[:, 0], t[:, 1]
        v = v**2 if asd else v
        v = np.where(v == 0, inf, v)
        r = getattr(noise, rng)
        if not (len(r) == 2 and float(r[0]) == f[0] and float(r[1]) == f[-1]):
            ctx.fail("range:" + fn, "frequency range of %s is %s, its table's is %s" % (fn, r, (f[0], f[-1])))
        check(ctx, fn, S(f), v, f, 1e-13, "table entries")
        for w in ([0.5, 0.25, 0.9, 1e-3] if ctx.quick else [0.5, 0.25, 0.75, 0.1, 0.9, 1e-3, 0.999, 0.33, 0.62]):
            x = f[:-1] + w * (f[1:] - f[:-1])
            k = np.clip(np.searchsorted(f, x, "right") - 1, 0, len(f) - 2)
            u = (x - f[k]) / (f[k + 1] - f[k])
            with np.errstate(all="ignore"):
                y = np.where(x == f[k], v[k], np.where(np.isinf(v[k]) | np.isinf(v[k + 1]), inf, v[k] + u * (v[k + 1] - v[k])))
            # distances between neighbouring frequencies are known to rounding
            check(ctx, fn, S(x), y, x, 1e-9, "between neighbours")
        out = np.array([np.nextafter(f[0], 0), f[0] * (1 - 1e-9), f[0] / 2, f[0] - 1e-6, 1e-3 * f[0], 0.0, -0.0, -1.0, -f[10], np.nextafter(f[-1], inf), f[-1] * (1 + 1e-9), f[-1] + 1e-3, 2 * f[-1], 1e9, 1e300, inf, -inf])
        check(ctx, fn, S(out), np.full(out.shape, inf), out, 0, "outside the range")
        # one frequency at a time, nested arrays, compiled and mapped: the same numbers
        x = np.concatenate([f[:: max(1, len(f) // 40)], out, (f[:-1] + 0.37 * np.diff(f))[:: max(1, len(f) // 40)]])
        y = np.asarray(S(x))
        for what, g in (("scalar", np.array([S(float(z)) for z in x])), ("mapped", jax.vmap(S)(x)), ("compiled", jax.jit(lambda z: S(z))(x)),
                        ("reversed", np.asarray(S(x[::-1]))[::-1]), ("nested", np.asarray(S(x[: len(x) // 2 * 2].reshape(2, -1))).ravel()), ("repeated", S(x))):
            g = np.asarray(g)
            check(ctx, fn, g, y[: len(g)], x[: len(g)], 1e-12, "%s evaluation" % what)
        ctx.sample(dict(curve=fn, entries=len(f), first=f[0], last=f[-1]))
    # analytic curve
    S = noise.Sn_LIGOI
    f = np.unique(np.concatenate([np.geomspace(40 * (1 + 1e-12), 1e4, 20000 if ctx.quick else 400000), [np.nextafter(40.0, inf), 41.0, 149.999, 150.0, 150.001, 1e4, 2e4, 1e6], np.arange(41.0, 10001.0)]))
    x = f / 150
    y = 9e-46 * ((4.49 * x)**-56 + 0.16 * x**-4.52 + 0.52 + 0.32 * x**2)
    check(ctx, "Sn_LIGOI", S(f), y, f, 1e-12, "formula")
    out = np.concatenate([np.linspace(0, 40, 4001), [np.nextafter(40.0, 0), 40 * (1 - 1e-12), 1e-300, -1.0, -100.0]])
    check(ctx, "Sn_LIGOI", S(out), np.full(out.shape, inf), out, 0, "below 40 Hz")
    check(ctx, "Sn_LIGOI", np.array([S(z) for z in f[::2000]]), y[::2000], f[::2000], 1e-12, "scalar evaluation")
    if tuple(noise.f_range_LIGOI) != (40.0, 1e4):
        ctx.fail("range:LIGOI", "stated range of Sn_LIGOI is %s" % (noise.f_range_LIGOI,))
    ctx.sample(dict(curve="Sn_LIGOI"))
    ctx.notes["exhaustive"] = True
