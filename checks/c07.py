"""Mass conversions against extended-precision arithmetic, in both precisions, eager and compiled."""
import itertools
import numpy as np
from mc import core
from mc.states import GT, GN, CL

LD = np.longdouble


def neighbours(x, k):
    out = [x]
    a = b = x
    for _ in range(k):
        a, b = np.nextafter(a, x.dtype.type(np.inf)), np.nextafter(b, x.dtype.type(0))
        out += [a, b]
    return out


def pairs(dt, full):
    m1 = np.array(list(dict.fromkeys([1.0, 1.4, 3.0, 30.0, 36.2, 1e-3, 0.3, 7.7, 11.1, 100.0, 123.456, 1e5, 1e9]
                                     + list(np.arange(1, 301 if full else 61) / 10.0)
                                     + list(np.geomspace(1e-3, 1e6, 60 if full else 19)))), dt)
    d = [0.0, 1e-3, 0.01, 0.1, 0.3, 0.5, 1.0, 2.0, 4.0, 9.0, 20.0, 99.0, 999.0, 1e4, 3e5, 1e7] + list(np.geomspace(1e-16, 1e-3, 40))
    out = []
    for m in m1:
        for x in neighbours(m, 24 if full else 12):
            out.append((m, x))
        for x in d:
            out.append((m, dt(LD(m) * (1 + LD(x)))))
            out.append((m, dt(LD(m) / (1 + LD(x)))))
    a = np.array(out, dt)
    return np.unique(np.concatenate([a, a[:, ::-1]]), axis=0)


def run(ctx):
    jax = core.setup_jax()
    import jax.numpy as jnp
    import ripplegw as R
    full = not ctx.quick
    worst = {}

    def note(k, v):
        worst[k] = max(worst.get(k, 0.0), float(v))

    for dt in (np.float64, np.float32):
        eps = LD(np.finfo(dt).eps)
        P = pairs(dt, full)
        ctx.add(transitions=2 * len(P))
        a, b = P[:, 0].astype(LD), P[:, 1].astype(LD)
        M = a + b
        eta = a * b / M**2
        Mc = (a * b)**LD(0.6) / M**LD(0.2)
        delta = np.abs(a - b) / M
        modes = {
            "arrays": R.ms_to_Mc_eta, "jit": jax.jit(R.ms_to_Mc_eta),
            "vmap": lambda m: jax.vmap(R.ms_to_Mc_eta)(m.T), "jit vmap": lambda m: jax.jit(jax.vmap(R.ms_to_Mc_eta))(m.T),
        }
        trips = {
            "arrays": lambda m: R.Mc_eta_to_ms(R.ms_to_Mc_eta(m)),
            "jit": jax.jit(lambda m: R.Mc_eta_to_ms(R.ms_to_Mc_eta(m))),
            "jit twice": lambda m: jax.jit(R.Mc_eta_to_ms)(jnp.stack(jax.jit(R.ms_to_Mc_eta)(m))),
            "jit vmap": lambda m: jax.jit(jax.vmap(lambda x: R.Mc_eta_to_ms(R.ms_to_Mc_eta(x))))(m.T),
        }
        arg = jnp.asarray(P.T)
        for name, fn in modes.items():
            c, e = (np.asarray(x) for x in fn(arg))
            if c.dtype != dt or e.dtype != dt:
                ctx.fail("dtype", "ms_to_Mc_eta changes precision from %s to %s" % (dt.__name__, c.dtype))
            ec = np.abs(c.astype(LD) / Mc - 1) / eps
            ee = np.abs(e.astype(LD) / eta - 1) / eps
            note("Mc/eps", np.nanmax(ec)); note("eta/eps", np.nanmax(ee))
            bad = ~(ec < 16) | ~(ee < 8) | (e > 0.25) | ~(e > 0)
            ctx.add(states=len(P), validated=len(P), comparisons=2 * len(P))
            for i in np.where(bad)[0][:10]:
                ctx.fail("forward", "ms_to_Mc_eta(%r, %r) = (%r, %r), want (%r, %r) [%s, %s]" % (
                    P[i, 0], P[i, 1], c[i], e[i], float(Mc[i]), float(eta[i]), name, dt.__name__), masses=P[i], mode=name)
        # what a relative error of a few eps in eta does to the masses
        k = 32 * eps
        dtol = M * np.minimum(np.sqrt(k), k / np.maximum(delta, LD(1e-300))) + 16 * eps * M
        for name, fn in trips.items():
            h, l = (np.asarray(x) for x in fn(arg))
            eh = np.abs(h.astype(LD) - np.maximum(a, b)) / dtol
            el = np.abs(l.astype(LD) - np.minimum(a, b)) / dtol
            note("round trip", max(np.nanmax(eh), np.nanmax(el)))
            bad = ~(eh < 1) | ~(el < 1) | ~(h >= l)
            ctx.add(states=len(P), validated=len(P), comparisons=2 * len(P))
            for i in np.where(bad)[0][:10]:
                ctx.fail("roundtrip", "round trip of masses (%r, %r) gives (%r, %r) [%s, %s]" % (
                    P[i, 0], P[i, 1], h[i], l[i], name, dt.__name__), masses=P[i], mode=name)
        # chirp mass and mass ratio given directly
        quarter = dt(0.25)
        es = [quarter]
        for _ in range(64 if full else 24):
            es.append(np.nextafter(es[-1], dt(0)))
        es += [dt(0.25 - x) for x in np.geomspace(1e-16, 0.2, 200 if full else 60)] + [dt(x) for x in np.geomspace(1e-4, 0.25, 80)]
        es = np.unique(np.array([x for x in es if 0 < x <= 0.25], dt))
        ms = np.array(list(np.linspace(0.5, 90, 358 if full else 90)) + [1e-3, 1e3, 1e6], dt)
        G = np.array(list(itertools.product(ms, es)), dt)
        x, y = G[:, 0].astype(LD), G[:, 1].astype(LD)
        M = x / y**LD(0.6)
        d = np.sqrt(np.maximum(1 - 4 * y, LD(0)))
        dtol = M * np.minimum(np.sqrt(k), k / np.maximum(d, LD(1e-300))) + 16 * eps * M
        ctx.add(transitions=len(G) * 2)
        for name, fn in (("arrays", R.Mc_eta_to_ms), ("jit", jax.jit(R.Mc_eta_to_ms)),
                         ("jit vmap", lambda m: jax.jit(jax.vmap(R.Mc_eta_to_ms))(m.T))):
            h, l = (np.asarray(v) for v in fn(jnp.asarray(G.T)))
            eh = np.abs(h.astype(LD) - M * (1 + d) / 2) / dtol
            el = np.abs(l.astype(LD) - M * (1 - d) / 2) / dtol
            note("from Mc, eta", max(np.nanmax(eh), np.nanmax(el)))
            bad = ~(eh < 1) | ~(el < 1) | ~(h >= l)
            ctx.add(states=len(G), validated=len(G), comparisons=2 * len(G))
            for i in np.where(bad)[0][:10]:
                ctx.fail("backward", "Mc_eta_to_ms(%r, %r) = (%r, %r), want (%r, %r) [%s, %s]" % (
                    G[i, 0], G[i, 1], h[i], l[i], float(M[i] * (1 + d[i]) / 2), float(M[i] * (1 - d[i]) / 2), name, dt.__name__),
                    mode=name)
        # effective spin and ISCO frequency
        m = np.array([1e-2, 1, 1.4, 10, 30, 33.3, 1e4], dt)
        s = np.array([-1, -0.7, -1e-6, 0, 0.2, 0.999, 1], dt)
        Q = np.array(list(itertools.product(m, m, s, s)), dt)
        q = Q.astype(LD).T
        want = (q[0] * q[2] + q[1] * q[3]) / (q[0] + q[1])
        for name, fn in (("arrays", R.get_chi_eff), ("jit", jax.jit(R.get_chi_eff)),
                         ("vmap", lambda v: jax.vmap(R.get_chi_eff)(v.T))):
            got = np.asarray(fn(jnp.asarray(Q.T)))
            e = np.abs(got.astype(LD) - want) / (eps * np.maximum(np.abs(q[2]), np.abs(q[3])) + LD(1e-40))
            note("chi_eff/eps", e.max())
            ctx.add(states=len(Q), validated=len(Q), comparisons=len(Q))
            for i in np.where(~(e < 8))[0][:10]:
                ctx.fail("chi_eff", "effective spin of %s is %r, want %r [%s]" % (Q[i].tolist(), got[i], float(want[i]), name), params=Q[i])
        mm = np.unique(np.concatenate([np.geomspace(1e20, 1e35 if dt is np.float32 else 1e42, 400), 1.988409902147041637e30 * np.geomspace(0.1, 1e4, 100)])).astype(dt)
        want = LD(CL)**3 / (LD(GN) * LD(np.pi) * LD(6)**LD(1.5) * mm.astype(LD))
        for name, fn in (("array", R.get_f_isco), ("jit", jax.jit(R.get_f_isco)), ("vmap", jax.vmap(R.get_f_isco))):
            got = np.asarray(fn(jnp.asarray(mm)))
            e = np.abs(got.astype(LD) / want - 1) / eps
            note("f_isco/eps", e.max())
            ctx.add(states=len(mm), validated=len(mm), comparisons=len(mm))
            for i in np.where(~(e < 16))[0][:10]:
                ctx.fail("f_isco", "ISCO frequency of %r kg is %r Hz, want %r [%s]" % (mm[i], got[i], float(want[i]), name))
    # plain Python numbers
    for a, b in itertools.product([1, 1.4, 3, 30.5, 36], repeat=2):
        for cont in ((a, b), [a, b], np.array([a, b], float)):
            c, e = (float(v) for v in R.ms_to_Mc_eta(cont))
            h, l = (float(v) for v in R.Mc_eta_to_ms((c, e)))
            ctx.add(states=1, validated=1, comparisons=2)
            if not (abs(h - max(a, b)) < 1e-6 * (a + b) and abs(l - min(a, b)) < 1e-6 * (a + b) and h >= l):
                ctx.fail("scalars", "round trip of (%r, %r) gives (%r, %r)" % (a, b, h, l))
    ctx.sample(dict(masses=P[0])); ctx.sample(dict(masses=P[-1])); ctx.sample(dict(Mc_eta=G[7]))
    ctx.notes.update(worst=worst, exhaustive=True)
