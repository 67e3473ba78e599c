"""Sine-Gaussian bursts against their closed-form definition and LALSuite."""
import itertools
import numpy as np
from mc import core


def reference(t, Q, f0, hrss, phase, e):
    """Definition, with the elliptical amplitudes written through the normalising integrals."""
    a = 1 / np.sqrt(2 - e * e)
    b = a * np.sqrt(max(1 - e * e, 0))
    n = Q / (4 * f0 * np.sqrt(np.pi))
    cg, sg = n * (1 + np.exp(-Q * Q)), n * (1 - np.exp(-Q * Q))
    cp, sp = np.cos(phase), np.sin(phase)
    hp = hrss * a / np.sqrt(cg * cp**2 + sg * sp**2)
    hc = hrss * b / np.sqrt(cg * sp**2 + sg * cp**2)
    w = 2 * np.pi * f0 * t
    g = np.exp(-0.5 * (w / Q)**2)
    return hp * g * np.cos(w - phase), hc * g * np.sin(w - phase)


def run(ctx):
    jax = core.setup_jax()
    import jax.numpy as jnp
    from ripplegw.waveforms.SineGaussian import gen_SineGaussian_hphc as gen
    full = not ctx.quick
    Q = [0.5, 1, 2, 3, 5, 9, 20, 40, 100, 300]
    F = [1.0, 10, 20, 70, 150, 400, 1000, 3000]
    H = [1e-24, 1e-22, 1e-21, 1.0]
    P = sorted(set([0, 1e-8, 0.3, np.pi / 4, np.pi / 2, 2, np.pi, 4, 3 * np.pi / 2, 5, 2 * np.pi, 7, -0.4, -np.pi, 40.0]
                   + (list(np.linspace(-7, 14, 43)) if full else [])))
    E = sorted(set([0, 1e-8, 1e-4, 0.1, 0.3, 0.5, 0.7, 0.9, 0.99, 0.9999, 1 - 1e-9, 1 - 1e-12, 1.0]
                   + (list(np.linspace(0, 1, 33)) if full else list(np.linspace(0, 1, 9)))))
    th = np.array(list(itertools.product(Q, F, H, P, E)), float)
    ctx.add(transitions=sum(len(th) // len(x) * (len(x) - 1) for x in (Q, F, H, P, E)))
    # the same shape of time grid in units of the duration of each burst, dense in its core and far into its tails
    u = np.unique(np.concatenate([np.linspace(-6, 6, 97), [0.0, 1e-9, -1e-9, 8.0, -8.0, 12.0, -12.0]]))
    g = jax.jit(jax.vmap(gen))
    worst = worst_r = 0
    for i in range(0, len(th), 4096):
        T = th[i:i + 4096]
        tau = T[:, 0] / (2 * np.pi * T[:, 1])
        t = tau[:, None] * u
        p, c = (np.asarray(x) for x in g(jnp.asarray(t), jnp.asarray(T)))
        ref = [reference(t[k], *T[k]) for k in range(len(T))]
        rp, rc = np.array([r[0] for r in ref]), np.array([r[1] for r in ref])
        sc = np.maximum(np.abs(rp).max(1), np.abs(rc).max(1))[:, None] * np.exp(-0.5 * u**2)
        # rounding of the phase 2 pi f0 t, and of sqrt(1 - e^2)
        tol = 1e-12 + 1e-14 * np.abs(T[:, :1] * u) + 1e-14 * u**2 + 1e-15 * np.abs(T[:, 3:4])
        ep = np.abs(p - rp) / np.maximum(sc, 1e-300)
        ec = np.abs(c - rc) / np.maximum(sc, 1e-300)
        # far in the tail everything underflows
        tiny = sc < 1e-280
        bad = (np.maximum(ep, ec) > tol) & ~tiny | ~np.isfinite(p) | ~np.isfinite(c)
        worst = max(worst, float(np.nanmax(np.where(tiny, 0, np.maximum(ep, ec) / tol))))
        ctx.add(states=len(T), validated=len(T), comparisons=2 * p.size)
        for k in np.unique(np.where(bad)[0])[:20]:
            j = int(np.where(bad[k])[0][0])
            ctx.fail("burst", "burst differs from its definition at t=%g: got (%g, %g), want (%g, %g) for (Q, f0, hrss, phase, e)=%s"
                     % (t[k, j], p[k, j], c[k, j], rp[k, j], rc[k, j], T[k].tolist()), theta=T[k], t=t[k, j])
        # limits of the eccentricity
        lin = T[:, 4] == 1
        if (np.abs(c[lin]) > 0).any():
            ctx.fail("linear", "eccentricity 1 has a cross polarisation", theta=T[lin][0])
    # root-sum-square: trapezoidal sum on a grid far finer than the oscillation, exact for a Gaussian
    n = 0
    for q, f0, h, ph, e in itertools.product([0.5, 1, 2, 5, 9, 30], [20.0, 150, 1000], [1e-22, 2.0], P[:9], [0, 0.3, 0.7, 0.99, 1.0]):
        tau = q / (2 * np.pi * f0)
        dt = min(tau / 20, 1 / (20 * f0))
        m = int(np.ceil(8 * tau / dt))
        t = np.arange(-m, m + 1) * dt
        k = 4096 * (len(t) // 4096 + 1)
        tt = np.concatenate([t, np.full(k - len(t), 1e3)])
        p, c = (np.asarray(x) for x in gg(jax, gen)(jnp.asarray(tt), jnp.asarray([q, f0, h, ph, e])))
        r = np.sqrt(((p**2 + c**2)[:len(t)]).sum() * dt) / h
        n += 1
        if not abs(r - 1) < 1e-9:
            ctx.fail("hrss", "root-sum-square strain is %.12g of the requested one for %s" % (r, [q, f0, h, ph, e]),
                     theta=[q, f0, h, ph, e], ratio=r)
    ctx.add(states=n, validated=n, comparisons=n)
    # LALSuite, inside the flat part of its window; one value per time: sub-grids give the same values
    lal_part(ctx, jax, gen, full)
    ctx.notes.update(worst_error_over_tolerance=worst, exhaustive=True)


_g = {}


def gg(jax, gen):
    if "g" not in _g:
        _g["g"] = jax.jit(gen)
    return _g["g"]


def lal_part(ctx, jax, gen, full):
    import jax.numpy as jnp
    import lal, lalsimulation as ls
    lal.ClobberDebugLevel(0)
    n, worst = 0, 0
    for Q, f0, h, ph, e in itertools.product([2.0, 3, 9, 30, 100], [20.0, 150, 1000], [1e-22], [0, 0.3, np.pi / 2, 2, np.pi, 5],
                                             [0, 0.3, 0.7, 0.99, 1.0]):
        dt = 1 / 8192
        a, b = ls.SimBurstSineGaussian(Q, f0, h, e, ph, dt)
        A, B = a.data.data, b.data.data
        N = len(A)
        mid = (N - 1) // 2
        half = min(mid // 2 - 2, 1024)
        t = np.arange(-half, half + 1) * dt
        tt = np.concatenate([t, np.full(2049 - len(t), 1e3)])
        p, c = (np.asarray(x)[:len(t)] for x in gg(jax, gen)(jnp.asarray(tt), jnp.asarray([Q, f0, h, ph, e])))
        sc = max(np.abs(A).max(), np.abs(B).max())
        d = max(np.abs(A[mid - half:mid + half + 1] - p).max(), np.abs(B[mid - half:mid + half + 1] - c).max()) / sc
        worst = max(worst, d)
        n += 1
        if not d < 1e-6:
            ctx.fail("lal", "burst differs from LALSuite by %.3g for %s" % (d, [Q, f0, h, ph, e]), theta=[Q, f0, h, ph, e])
        # one time at a time, reversed and repeated
        if e in (0, 0.7) and ph in (0.3, 5):
            T = jnp.asarray([Q, f0, h, ph, e])
            for sel in ([half], [half + 7], [half + 7, half - 3], [2, 1, 1, 0], list(range(len(t)))[::-1]):
                ps, cs = gen(jnp.asarray(t[sel]), T)
                if np.shape(ps) != (len(sel),) or np.abs(np.asarray(ps) - p[sel]).max() > 1e-12 * sc or np.abs(np.asarray(cs) - c[sel]).max() > 1e-12 * sc:
                    ctx.fail("pointwise", "burst values depend on the other times asked for", theta=[Q, f0, h, ph, e], times=t[sel])
    ctx.add(states=n, validated=n, comparisons=n)
    ctx.notes["worst_difference_from_LAL"] = worst
