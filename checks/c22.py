"""Match, inner product and padding against a direct evaluation of their definitions, over all small signals and grids."""
import itertools, warnings
import numpy as np
from mc import core, laws as L

SIG = [0, 1, 1j, -1, 0.5 - 2j]
PSD = [1.0, 4.0, 0.25, np.inf]


def run(ctx):
    L.per_model(ctx, "checks.c22", ["pads", "arr2", "arr3", "arr4", "functions", "waveforms"])
    ctx.notes["exhaustive"] = True


def part(ctx, name):
    dict(pads=pads, arr2=lambda c: arrays(c, 2), arr3=lambda c: arrays(c, 3), arr4=lambda c: arrays(c, 4), functions=functions, waveforms=waveforms)[name](ctx)


def pads(ctx):
    import jax.numpy as jnp
    import ripplegw as R
    kmax, nmax = (12, 8) if ctx.quick else (40, 30)
    clean = 0
    for df in [0.125, 0.25, 0.5, 1.0, 2.0, 16.0, 0.1, 1 / 3.0, 0.7, 1e-3]:
        dyadic = np.log2(df) == round(np.log2(df))
        for k0 in range(0, kmax + 1):
            for n in range(2, nmax + 1):
                k1 = k0 + n - 1
                if k1 < 2:
                    continue
                fs = df * np.arange(k0, k1 + 1)
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    a, b = R.get_eff_pads(jnp.asarray(fs))
                a, b = np.asarray(a), np.asarray(b)
                w = [str(x.message) for x in w]
                ctx.add(states=1, transitions=3, validated=1, comparisons=4)
                if dyadic and w:
                    ctx.fail("pads:warning", "get_eff_pads warns about the uniform grid %s: %s" % (fs.tolist(), w))
                if w:
                    continue
                clean += 1
                if len(a) != k0 or len(b) != k1 - 2 or a.any() or b.any():
                    ctx.fail("pads:length", "pads of the grid from %d to %d times %g have lengths %d and %d, documented %d and %d; nonzero: %s" % (k0, k1, df, len(a), len(b), k0, k1 - 2, bool(a.any() or b.any())))
    # grids that are not uniform, or do not start at a multiple of their spacing, are reported
    for df in (0.25, 1.0, 0.1):
        for k0 in range(0, 6):
            for n in range(3, 8):
                for what in ["offset", "little"] + ["%s%d" % (w, j) for j in range(1, n - 1) for w in ("move", "nudge", "shift")]:
                    fs = df * np.arange(k0, k0 + n)
                    if what == "offset":
                        fs = fs + 0.3 * df
                    elif what == "little":
                        fs = fs + 1e-3 * df
                    else:
                        fs[int(what.lstrip("abcdefghijklmnopqrstuvwxyz"))] += dict(m=0.37, n=0.01, s=-1e-3)[what[0]] * df
                    with warnings.catch_warnings(record=True) as w:
                        warnings.simplefilter("always")
                        try:
                            R.get_eff_pads(jnp.asarray(fs))
                        except Exception as e:
                            if not core.from_repo(e):
                                raise
                    ctx.add(states=1, transitions=1, validated=1, comparisons=1)
                    if not w:
                        ctx.fail("pads:silent", "get_eff_pads does not warn about the grid %s" % fs.tolist())
    ctx.notes["uniform_grids_without_warning"] = clean
    ctx.sample(dict(part="pads", grid=[0.25 * x for x in range(3, 8)]))


def direct(k0, n, Sn, a, b):
    """Normalised correlations [.., N] at all time shifts of the padded grid of 2 k1 - 1 points, from the definition."""
    k = np.arange(k0, k0 + n)
    N = 2 * k[-1] - 1
    w = np.where(np.isinf(Sn), 0, 1 / Sn)
    E = np.exp(2j * np.pi * np.outer(k, np.arange(N)) / N)
    c = np.abs((np.conj(a) * b * w) @ E)
    return c / np.sqrt((np.abs(a)**2 * w).sum(-1) * (np.abs(b)**2 * w).sum(-1))[..., None]


def arrays(ctx, n):
    import jax, jax.numpy as jnp
    import ripplegw as R
    sig = np.array(list(itertools.product(SIG if n < 4 or not ctx.quick else SIG[:4], repeat=n)), complex)
    if n == 4:
        sig = sig[::3] if ctx.quick else sig[::2]
    psd = np.array(list(itertools.product(PSD, repeat=n)))
    if n == 4:
        psd = psd[::7]
    for k0 in ([0, 1, 2, 5] if ctx.quick else range(0, 9)):
        k1 = k0 + n - 1
        N = 2 * k1 - 1
        if k1 < 2:
            continue
        lo, hi = np.zeros(k0), np.zeros(k1 - 2)
        for df in (0.25,) if ctx.quick else (0.25, 2.0):
            fs = df * np.arange(k0, k1 + 1)
            match = jax.jit(jax.vmap(lambda S, a, b: R.get_match_arr(lo, hi, S, a, b)))
            dts = np.arange(N) / (N * df)
            inner = jax.jit(jax.vmap(lambda S, a, b: jax.vmap(lambda t: R.get_phase_maximized_inner_product_arr(t, fs, S, a, b))(dts)))
            for i in range(len(psd)):
                w = np.isfinite(psd[i])
                s = sig[(np.abs(sig) * w).sum(1) > 0]
                if not len(s):
                    continue
                # all ordered pairs
                a, b = np.repeat(s, len(s), 0), np.tile(s, (len(s), 1))
                keep = max(1, len(a) // (4000 if ctx.quick else 40000))
                if keep > 1:
                    # every pair with one of a spanning set of the first signals
                    first = s[:: max(1, len(s) // 24)]
                    a, b = np.repeat(first, len(s), 0), np.tile(s, (len(first), 1))
                size = 1 << int(np.ceil(np.log2(len(a))))
                pa, pb = (np.concatenate([x, np.repeat(x[:1], size - len(a), 0)]) for x in (a, b))
                P = np.tile(psd[i], (size, 1))
                M = np.asarray(match(P, pa, pb))[:len(a)]
                I = np.asarray(inner(P, pa, pb))[:len(a)]
                want = direct(k0, n, psd[i], a, b)
                ctx.add(states=len(a), transitions=len(a) * 2, validated=len(a), comparisons=want.size + len(a))
                e = np.abs(I - want).max(1)
                f = np.abs(M - want.max(1))
                for key, x, got, wn in (("inner", e, I, want), ("match", f, M, want.max(1))):
                    bad = np.where(~(x <= 1e-12))[0]
                    ctx.nfail += max(0, len(bad) - 3)
                    for j in bad[:3]:
                        ctx.fail(key, "%s of %s and %s with noise %s, grid from %d: %s, by definition %s" % (key, a[j].tolist(), b[j].tolist(), psd[i].tolist(), k0, got[j].tolist(), wn[j].tolist()))
                # consequences, on what was returned
                same = (a == b).all(1)
                rules = [("range", (M > 1 + 1e-12) | (M < 0) | (I > 1 + 1e-12).any(1) | (I < 0).any(1)), ("identical", same & (np.abs(M - 1) > 1e-12))]
                for key, bad in rules:
                    if bad.any():
                        j = int(np.where(bad)[0][0])
                        ctx.fail(key, "match of %s and %s with noise %s is %.17g" % (a[j].tolist(), b[j].tolist(), psd[i].tolist(), M[j]))
            # symmetry and invariance, one noise curve
            P = np.tile(psd[1], (size, 1))
            base = np.asarray(match(P, pa, pb))
            t = np.exp(2j * np.pi * fs * 3 / (N * df))
            for key, x, y in (("symmetry", pb, pa), ("scale", 3.7 * pa, 0.01 * pb), ("phase", pa * np.exp(0.7j), pb * np.exp(-2j)), ("time", pa * t, pb), ("time", pa, pb * t)):
                g = np.asarray(match(P, x, y))
                ok = np.isfinite(base)
                ctx.add(states=size, transitions=size, comparisons=size)
                bad = np.where(ok & ~(np.abs(g - base) <= 1e-12))[0]
                for j in bad[:3]:
                    ctx.fail(key, "match of %s and %s changes from %.15g to %.15g (%s)" % (pa[j].tolist(), pb[j].tolist(), base[j], g[j], key))
    ctx.sample(dict(part="signals of length %d" % n, signals=len(sig), noise=len(psd)))


def functions(ctx):
    """get_match and get_phase_maximized_inner_product: which amplitude, phase, parameters and noise go where."""
    import jax.numpy as jnp
    import ripplegw as R
    A = [lambda f, th: th[0] * (1 + f), lambda f, th: th[0] + 0.3 * f * f * th[1]]
    P = [lambda f, th: th[1] * f + 0.2 * th[0], lambda f, th: 0.5 * th[1] * f * f - th[0]]
    Sns = [lambda f: 1 + 0 * f, lambda f: 1 + f**2, lambda f: jnp.where(f > 2.1, jnp.inf, 1.0 + f)]
    ths = [np.array(x) for x in itertools.product((0.5, 1.7), (-0.8, 0.3, 1.0))]
    for k0, n, df in ((2, 3, 0.5), (1, 4, 1.0)):
        fs = df * np.arange(k0, k0 + n)
        lo, hi = R.get_eff_pads(jnp.asarray(fs))
        N = 2 * (k0 + n - 1) - 1
        for (i, S), a, p, a2, p2, t1, t2 in itertools.product(enumerate(Sns), (0, 1), (0, 1), (None, 0, 1), (None, 0, 1), ths if not ctx.quick else ths[::2], ths):
            Am, Ph = A[a], P[p]
            B, Q = (None if a2 is None else A[a2]), (None if p2 is None else P[p2])
            h1 = np.asarray(Am(fs, t1) * np.exp(1j * Ph(fs, t1)))
            h2 = np.asarray((B or Am)(fs, t2) * np.exp(1j * (Q or Ph)(fs, t2)))
            Sn = np.asarray(S(fs))
            want = direct(k0, n, Sn, h1, h2)
            got = float(R.get_match(fs, lo, hi, S, t1, t2, Am, Ph, B, Q))
            j = 1
            g2 = float(R.get_phase_maximized_inner_product(j / (N * df), fs, S, t1, t2, Am, Ph, B, Q))
            ctx.add(states=1, transitions=6, validated=1, comparisons=2)
            if not (abs(got - want.max()) <= 1e-12 and abs(g2 - want[j]) <= 1e-12):
                ctx.fail("functions", "match %.15g (by definition %.15g), inner product %.15g (%.15g) with amplitudes %s, %s, phases %s, %s, noise %d, parameters %s, %s" % (
                    got, want.max(), g2, want[j], a, a2, p, p2, i, t1.tolist(), t2.tolist()))
    ctx.sample(dict(part="functions", combinations="2 amplitudes x 2 phases x second model left out or not"))


def waveforms(ctx):
    """The same identities on the library's own waveforms and noise curves, on a detector grid."""
    import jax.numpy as jnp
    import ripplegw as R
    from ripplegw import noise
    from mc import models as m
    from mc.states import base, COLS, col
    df, k0, n = 0.25, 80, 2000
    fs = df * np.arange(k0, k0 + n)
    lo, hi = R.get_eff_pads(jnp.asarray(fs))
    rows = [dict(eta=0.24), dict(eta=0.2, chi1=0.4, tc=0.05, phic=1.0), dict(eta=0.24, M=40.0, chi2=-0.5, D=900.0), dict(eta=0.15, tc=-0.02, iota=1.0)]
    S = np.array([[base(**r)[c] for c in COLS] for r in rows])
    h = np.concatenate([m.evaluate(x, S, f=np.tile(fs, (len(S), 1)), chunk=4)[:, 0] for x in ("D", "TF2")])
    curves = [noise.Sn_aLIGO, noise.Sn_O2, noise.Sn_O3a, noise.Sn_LIGOI, noise.Sn_aLIGOZeroDetHighPower, noise.Sn_ce, noise.Sn_et]
    for s in curves:
        Sn = np.asarray(s(fs))
        for i in range(len(h)):
            want = direct_fft(k0, n, Sn, h[i], h)
            for j in range(len(h)):
                got = float(R.get_match_arr(lo, hi, Sn, h[i], h[j]))
                ctx.add(states=1, transitions=2, validated=1, comparisons=1)
                if not abs(got - want[j]) <= 1e-9 or not -1e-12 <= got <= 1 + 1e-9 or (i == j and abs(got - 1) > 1e-9):
                    ctx.fail("waveforms", "match of waveforms %d and %d is %.15g, by definition %.15g" % (i, j, got, want[j]))
    ctx.sample(dict(part="waveforms", grid=[fs[0], fs[-1], df]))


def direct_fft(k0, n, Sn, a, b):
    k1 = k0 + n - 1
    N = 2 * k1 - 1
    w = np.where(np.isinf(Sn), 0, 1 / Sn)
    z = np.zeros(b.shape[:-1] + (N,), complex)
    z[..., k0:k1 + 1] = np.conj(a) * b * w
    c = np.abs(np.fft.ifft(z, axis=-1) * N).max(-1)
    return c / np.sqrt((np.abs(a)**2 * w).sum(-1) * (np.abs(b)**2 * w).sum(-1))
