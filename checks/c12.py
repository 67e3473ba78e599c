"""Continuity of the strain and of its first derivative in frequency.

For every source the frequency axis is cut into 288 intervals. In each, the change of ln h, of d ln h/d ln f and of its
derivative is compared with what the neighbouring intervals let expect; the intervals with the largest surprises are cut
into 16 again and again until they are one floating-point number wide. There, at 17 consecutive floating-point numbers,
value and first derivative must not jump."""
import numpy as np
from mc import core, laws as L, models as m, reflal, refcheck as R
from mc.states import GT, col

K = 289


def run(ctx):
    L.per_model(ctx, "checks.c12", ["D", "XAS", "Pv2", "TF2", "NRT", "NRTn"])
    ctx.notes["exhaustive"] = True
    ctx.assumptions.append("a disturbance narrower than 1/60 of an e-fold and not at a change of regime is not seen")


def jets(model):
    """(f, theta, f_ref) -> h, dh/dlnf, d2h/dlnf2 stacked [6, NF]."""
    import jax
    g = m.function(model)

    def fn(f, th, fr):
        import jax.numpy as jnp
        F = lambda x: jnp.stack(g(x, th, fr))
        D = lambda x: jax.jvp(F, (x,), (x,))
        def both(x):
            h, d = D(x)
            return h, d
        (h, d), (_, dd) = jax.jvp(both, (f,), (f,))
        return (*h, *d, *dd)
    return fn


def reduce(J, fl=0.0):
    """|h|, v1 = d ln h, v2 = d v1, with both polarisations taken together; J [..., 6, NF]. fl: floor of |h|."""
    n = (np.abs(J[..., :2, :])**2).sum(-2) + fl**2
    with np.errstate(all="ignore"):
        v1 = (J[..., 2:4, :] * J[..., :2, :].conj()).sum(-2) / n
        v2 = (J[..., 4:6, :] * J[..., :2, :].conj()).sum(-2) / n
    return np.sqrt(n), v1, v2


def surprise(J, lf, fl=0.0):
    """Three scores [..., NF - 1] of the intervals between consecutive points."""
    h = J[..., :2, :]
    a, v1, v2 = reduce(J, fl)
    w2 = v2 - v1**2
    d = np.diff(lf)
    with np.errstate(all="ignore"):
        step = (h[..., 1:] * h[..., :-1].conj()).sum(-2) / (np.abs(h[..., :-1])**2).sum(-2)
        pred = 0.5 * d * (v1[..., 1:] + v1[..., :-1]) - d**2 / 12 * (w2[..., 1:] - w2[..., :-1])
        r = np.abs(step * np.exp(-pred) - 1)
    return r, _odd(v1), _odd(w2)


def peaks(s, w=2):
    """Scores of the intervals that are not next to a worse one."""
    p = np.pad(np.nan_to_num(s, nan=np.inf), ((0, 0), (w, w)), constant_values=-1)
    m = np.max([p[:, k:k + s.shape[1]] for k in range(2 * w + 1)], 0)
    return np.where(s >= m, s, -1)


def _odd(v):
    d = np.diff(v)
    p = np.concatenate([d[..., 1:2], d[..., :-1]], -1)
    q = np.concatenate([d[..., 1:], d[..., -2:-1]], -1)
    with np.errstate(all="ignore"):
        return np.abs(d - (p + q) / 2) / (np.abs(p) + np.abs(q) + 1e-6 * np.abs(v[..., 1:]) + 1e-12)


def part(ctx, model):
    spins = L.SPINS[:6] if ctx.quick else L.SPINS
    kw = dict(lams=[(0, 0), (400, 600), (5000, 100)]) if model in L.TIDAL else {}
    S, mv = L.sources(model, ctx.quick, spins=spins, plane=L.PLANE[1:3] if ctx.quick else L.PLANE, iotas=(0.4,) if ctx.quick else (0.4, 1.9), **kw)
    if not ctx.quick:
        e = np.linspace(0.02, 0.25, 24)
        S = np.concatenate([S] + [L.with_(S[::7], eta=x) for x in e])
        S = L.physical(S)
    if model == "Pv2":
        # where the total angular momentum turns against L the opening angle of the model has a kink
        for x in np.linspace(0.0004, 0.2, 60):
            S = S[L.j_along_l(L.with_(S, Mfref=x), 1e-3)]
    ctx.add(transitions=mv)
    fn = jets(model)
    lo = 4e-4
    hi = m.CUT.get(model, 0.1999) * 0.99999 if np.isfinite(m.CUT.get(model, 0.1999)) else 0.1999
    for i in range(0, len(S), 2048):
        chunk(ctx, model, fn, S[i:i + 2048], lo, hi)
    ctx.sample(dict(model=model, state=L.describe(S[-1])))


def chunk(ctx, model, fn, S, lo, hi):
    n = len(S)
    th, fr = m.theta(model, S), m.fref(S)
    ev = lambda f: m.evaluate(model, S, f=f, fn=fn, th=th, fr=fr, chunk=64)
    top = hi / (col(S, "M") * GT)
    f0 = np.exp(np.linspace(np.log(lo / (col(S, "M") * GT)), np.log(top), K)).T
    f0 = np.ascontiguousarray(f0.reshape(n, K))
    J = ev(f0)
    amp = np.sqrt((np.abs(J[:, :2])**2).sum(1))
    tidal = model.startswith("NRT")
    alive = amp * f0**(7 / 6.0) > 1e-9 * (amp * f0**(7 / 6.0)).max(1)[:, None] if tidal else np.isfinite(amp)
    # the tidal correction takes the amplitude through zero, where its logarithm has no derivative
    scale = (amp[:, 0] * f0[:, 0]**(7 / 6.0))
    fl = lambda f: (1e-3 * scale.reshape((-1,) + (1,) * (f.ndim - 1)) * f**(-7 / 6.0)) if tidal else 0.0
    fin = np.isfinite(J[:, :4]).all(1)
    if not fin[alive].all():
        i = int(np.where(~fin & alive)[0][0])
        ctx.fail("finite:" + model, "%s: strain or derivative not finite in %s" % (model, L.describe(S[i])), state=L.describe(S[i]))
        return
    alive &= np.isfinite(J).all(1)
    sc = surprise(J, np.log(f0), fl(f0))
    ok = alive[:, 1:] & alive[:, :-1]
    for rnd in range(2):
        descend(ctx, model, S, ev, f0, amp, tidal, fl, lo, sc, ok, rnd)
    if model == "NRT":
        # the ends of the taper, where a step may hide in the large changes next to it
        fm = np.concatenate([reflal.tidal_parts(S[i:i + 512], np.array([0.01]))[3] for i in range(0, n, 512)]) * 4.925490947641266978e-06 / GT
        x = np.array([fm * s * (1 + d) for s in (1, 1.2) for d in (0, -1e-4, 1e-4, -1e-6, 1e-6, -1e-3, 1e-3)] + [0.5 * fm] * 3).T
        lo_, hi_ = x * (1 - 1e-7), x * (1 + 1e-7)
        descend(ctx, model, S, ev, f0, amp, tidal, fl, lo, sc, ok, (lo_, hi_))


def descend(ctx, model, S, ev, f0, amp, tidal, fl, lo, sc, ok, rnd):
    n = len(S)
    A, B, kind = [], [], []
    given = isinstance(rnd, tuple)
    if given:
        A, B, kind = [np.ascontiguousarray(rnd[0])], [np.ascontiguousarray(rnd[1])], [0] * 17
    for j, c in enumerate((6, 5, 6)):
        if given:
            break
        idx = np.argsort(-peaks(np.where(ok, sc[j], -1)), 1)[:, rnd * c:(rnd + 1) * c]
        A.append(np.take_along_axis(f0[:, :-1], idx, 1)); B.append(np.take_along_axis(f0[:, 1:], idx, 1)); kind += [j] * c
    A, B, kind = np.concatenate(A, 1), np.concatenate(B, 1), np.array(kind)
    a, b = A.view(np.int64), B.view(np.int64)
    steps = 0
    k = np.arange(17)
    while (b - a).max() > 1 and steps < 16:
        x = a[..., None] + ((b - a)[..., None] * k + 8) // 16       # [n, 17, 17] consecutive section points
        f = np.ascontiguousarray(x).view(np.float64)
        J = ev(f.reshape(n, K)).reshape(n, 6, 17, 17).transpose(0, 2, 1, 3)
        r, d1, d2 = sections(J, f, fl(f))
        s = np.where((kind == 0)[:, None], r, np.where((kind == 1)[:, None], d1, d2))
        s = np.where(np.diff(x) > 0, s, -1)
        p = np.argmax(s, -1)[..., None]
        a, b = np.take_along_axis(x, p, -1)[..., 0], np.take_along_axis(x, p + 1, -1)[..., 0]
        steps += 1
        ctx.add(states=n * 17, transitions=n * 17 * 16)
    f = np.ascontiguousarray(a[..., None] - 8 + k).view(np.float64)
    f = np.minimum(f, (0.2 * 0.9999999 if model != "XAS" else 0.3 * 0.9999999) / (col(S, "M") * GT)[:, None, None])
    J = ev(f.reshape(n, K)).reshape(n, 6, 17, 17).transpose(0, 2, 1, 3)
    v = np.sqrt((np.abs(J[:, :, :2])**2).sum(2)).max(-1)                 # [n, 17]
    jump = lambda x: np.sqrt((np.abs(np.diff(x))**2).sum(2)).max(-1)
    net = lambda x: np.sqrt((np.abs(x[..., -1] - x[..., 0])**2).sum(2))
    _, v1, v2 = reduce(J, fl(f))
    with np.errstate(all="ignore"):
        j0 = np.maximum(jump(J[:, :, :2]), net(J[:, :, :2])) / (v + np.max(fl(f) + 0 * f, -1))
        j1 = np.abs(v1 - v1[..., :1]).max(-1)
        w2 = v2 - v1**2
        j2 = np.abs(w2 - w2[..., :1]).max(-1)
    # one floating-point number further on, the phase has moved by rounding of f times its slope
    big = np.abs(v1).max(-1)
    size = L.size(S, np.array([lo]))[0]
    t0 = 1e-10 + 4e-15 * (size + 20 * big)
    t1 = 1e-6 + 5e-11 * (size + big)
    dead = ~(v * f.max(-1)**(7 / 6.0) > 1e-9 * (amp * f0**(7 / 6.0)).max(1)[:, None]) if tidal else np.zeros(v.shape, bool)
    found = (j2 > 1e-3 * (1 + np.abs(w2).max(-1))) & ~dead
    ctx.notes["regime_changes_located:" + model] = ctx.notes.get("regime_changes_located:" + model, 0) + int(found.sum())
    ctx.add(states=n * 17, validated=n, comparisons=n * 17 * 17 * 2)
    W = ctx.notes.setdefault("worst_error_over_tolerance", {})
    for nm, e, t in (("value", j0, t0), ("slope", j1, t1)):
        x = np.where(dead, 0, e / t)
        W["%s:%s" % (model, nm)] = max(W.get("%s:%s" % (model, nm), 0), float(np.nanmax(x)))
        bad = ~(x <= 1)
        for i, c in list(zip(*np.where(bad)))[:10]:
            ctx.fail("%s:%s" % (nm, model), "%s: %s jumps by %.3g (allowed %.3g) at f=%r Hz, Mf=%.9g, in %s" % (
                model, nm, e[i, c], t[i, c if t.shape[1] > 1 else 0], f[i, c, 8], f[i, c, 8] * col(S, "M")[i] * GT, L.describe(S[i])),
                model=model, state=L.describe(S[i]), f=f[i, c], h=J[i, c, :2])


def sections(J, f, fl=0.0):
    a, v1, v2 = reduce(J, fl)
    h = J[..., :2, :]
    w2 = v2 - v1**2
    d = np.diff(np.log(f))
    with np.errstate(all="ignore"):
        step = (h[..., 1:] * h[..., :-1].conj()).sum(-2) / (np.abs(h[..., :-1])**2).sum(-2)
        r = np.abs(step * np.exp(-0.5 * d * (v1[..., 1:] + v1[..., :-1])) - 1)
    out = [r]
    for v in (v1, w2):
        e = np.diff(v)
        e = np.abs(e - np.median(e.real, -1)[..., None] - 1j * np.median(e.imag, -1)[..., None])
        out.append(e)
    return [np.nan_to_num(o, nan=np.inf) for o in out]
