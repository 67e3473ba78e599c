"""Forward- and reverse-mode derivatives against finite differences of the strain itself."""
import numpy as np
from mc import laws as L, models as m, refcheck as R, core
from mc.states import GT, col, masses

NF = 24
NAMES = {
    "D": ["Mc", "eta", "chi1", "chi2", "D", "tc", "phic", "iota"],
    "XAS": ["Mc", "eta", "chi1", "chi2", "D", "tc", "phic", "iota"],
    "TF2": ["Mc", "eta", "chi1", "chi2", "lam1", "lam2", "D", "tc", "phic", "iota"],
    "Pv2": ["Mc", "eta", "s1x", "s1y", "s1z", "s2x", "s2y", "s2z", "D", "tc", "phiRef", "iota"],
}
NAMES["TF2t"] = NAMES["NRTt"] = NAMES["NRT"] = NAMES["TF2"]


def run(ctx):
    L.per_model(ctx, "checks.c16", __import__("os").environ.get("ONLY", "XAS,Pv2,D,NRT,NRTt,TF2,TF2t").split(","))
    ctx.notes["exhaustive"] = True


def forward(model):
    """(f, p = theta and f_ref followed by a direction in ln f and p) -> strain and its derivative along the direction."""
    import jax, jax.numpy as jnp
    g = jax.jit(m.function(model))

    def fn(f, pd, _):
        n = len(pd) // 2
        p, df, d = pd[:n], pd[n], pd[n + 1:]
        h, dh = jax.jvp(lambda f, p: jnp.stack(g(f, p[:-1], p[-1])), (f, p), (f * df, d))
        return (*h, *dh)
    return fn


def reverse(model):
    """(f, p) -> gradients of two fixed real functionals of the strain, padded to the length of f."""
    import jax, jax.numpy as jnp
    g = jax.jit(m.function(model))

    def fn(f, p, _):
        h, back = jax.vjp(lambda q: jnp.stack(g(f, q[:-1], q[-1])), p)
        sc = jnp.max(jnp.abs(h)) + 1e-300
        w = jnp.asarray(weights(h.shape[1]))
        pad = lambda v: jnp.concatenate([v, jnp.zeros(h.shape[1] - len(v))]).astype(h.dtype)
        return [pad(back((w * c / sc).astype(h.dtype))[0]) for c in (1.0, 1j)]
    return fn


def weights(n):
    k = np.arange(n)
    return np.stack([np.exp(0.7j * k * k), np.exp(-1.3j * k) * (1 + 0.1 * k)])


def part(ctx, model):
    etas = [0.249, 0.24, 0.222, 0.2, 0.16, 0.1, 0.05, 0.025]
    spins = [(0, 0), (0.5, -0.3), (-0.6, 0.4), (0.9, 0.85), (-0.9, -0.8), (0.3, 0.9), (0.75, -0.75)]
    lams = [(400, 600), (0.01, 0.5), (0.999, 1.001), (1.001, 0.999), (5000, 100), (1.5, 30)]
    plane = [(0.3, 0, 0, 0), (0, -0.3, 0.2, 0.1), (-0.1, 0.25, 0.2, -0.05), (0, 0, 0.1, 0.3)]
    ext = dict(D=700.0, tc=0.013, phic=0.7)
    if model.endswith("t"):
        # the deformabilities are hardly determined by the effective parameters for very unequal masses
        etas = [0.249, 0.24, 0.23, 0.222, 0.21, 0.2, 0.18, 0.16]
    if ctx.quick:
        etas, spins = etas[::2] if model in L.TIDAL else etas[:7], spins[:5]
    S, mv = L.sources(model, True, etas=etas, spins=spins, lams=lams, plane=plane, M=(60.0,) if ctx.quick else (60.0, 3.0),
                      iotas=(0.4,) if ctx.quick else (0.4, 1.9), mfref=(0.005,) if ctx.quick else (0.005, 0.03), **ext)
    S2 = L.sources(model, True, etas=[0.23], spins=[(0.2, 0.1)], lams=lams[:1], plane=plane[:1], M=(2.8, 300.0), iotas=(0.0, 1.1, np.pi / 2), mfref=(0.004, 0.04), **ext)[0]
    S = np.concatenate([S, S2])
    if not ctx.quick:
        S = np.concatenate([S] + [L.with_(S[::6], eta=e) for e in np.linspace(0.024, 0.2491, 30)])
        S = L.physical(S)
    if model == "Pv2":
        for x in np.linspace(0.0004, 0.2, 40):
            S = S[L.j_along_l(L.with_(S, Mfref=x), 5e-3)]
        # face-on or with the line of sight along J the angles about it have no derivative
        S = S[(col(S, "iota") > 1e-3) | (np.hypot(col(S, "s1x"), col(S, "s1y")) > 1e-3)]
    ctx.add(transitions=mv)
    th = np.concatenate([m.theta(model, S), m.fref(S)[:, None]], 1)
    names = NAMES[model] + ["f_ref"]
    P = th.shape[1]
    cut = m.CUT.get(model, 0.2)
    cut = cut if np.isfinite(cut) else 0.2
    Mf = np.unique(np.concatenate([np.geomspace(1.01e-3, cut * 0.99, NF - 5), [0.0131, 0.0155, 0.0172, 0.0187, 0.0331]]))
    f = m.hertz(S, Mf)
    # derivatives along each parameter and along ln f: the direction is an input, so that one derivative is compiled
    eye = np.eye(P + 1)
    pd = np.concatenate([np.repeat(th, P + 1, 0), np.tile(eye, (len(S), 1))], 1)
    J = m.evaluate(model, pd, f=np.repeat(f, P + 1, 0), fn=forward(model), th=pd, fr=pd[:, P - 1], chunk=256)
    J = J.reshape(len(S), P + 1, 4, NF)
    h, df, slopes = J[:, 0, :2], J[:, 0, 2:], J[:, 1:, 2:]
    if model == "XAS" and ctx.quick:
        gr = np.zeros((len(S), 0, P))     # takes minutes to compile
    else:
        gr = m.evaluate(model, S, f=f, fn=reverse(model), th=th, fr=th[:, -1], chunk=64)[:, :, :P].real
    plain_fn = m.function(model)
    plain = lambda x, p, r: plain_fn(x, p[:-1], p[-1])
    pl = lambda f, t: m.evaluate(model, S, f=f, fn=plain, th=t, fr=t[:, -1], chunk=256)
    ctx.add(states=len(S), comparisons=J.size)
    fin = np.isfinite(h).all((1, 2)) & np.isfinite(slopes).all((1, 2, 3)) & np.isfinite(gr).all((1, 2)) & np.isfinite(df).all((1, 2))
    for i in np.where(~fin)[0][:10]:
        bad = [n for k, n in enumerate(names) if not (np.isfinite(slopes[i, k]).all() and np.isfinite(gr[i, :, k]).all())]
        ctx.fail("finite:" + model, "%s: derivative with respect to %s not finite in %s" % (model, ", ".join(bad) or "frequency", L.describe(S[i])), state=L.describe(S[i]))
    if not fin.all():
        return
    size = np.sqrt((np.abs(h)**2).sum(1))                                    # [N, NF]
    W = ctx.notes.setdefault("worst_error_over_tolerance", {})
    # reverse mode against forward mode
    w = weights(NF)
    sc = np.abs(h).max((1, 2))[:, None] + 1e-300
    # jax's reverse mode of a function to the complex numbers: gradient of Re(sum conj-free w h)
    for k, c in enumerate((1.0, 1j)[:gr.shape[1]]):
        a = (c * w[None, None] * slopes).sum((2, 3)).real / sc
        scale = np.abs(slopes).sum((2, 3)) / sc + 1e-6 / np.maximum(np.abs(th), 1e-3)
        e = np.abs(gr[:, k] - a) / scale
        W["%s:reverse" % model] = max(W.get("%s:reverse" % model, 0), float(e.max() / 1e-7))
        ctx.add(comparisons=e.size)
        for i, q in list(zip(*np.where(~(e <= 1e-7))))[:5]:
            ctx.fail("reverse:%s:%s" % (model, names[q]), "%s: reverse-mode derivative in %s is %.9g, forward mode %.9g in %s" % (
                model, names[q], gr[i, k, q], a[i, q], L.describe(S[i])), state=L.describe(S[i]))
    # finite differences
    natural = {"Mc": np.abs(th[:, 0]), "eta": np.minimum(th[:, 1], 0.25 - th[:, 1]), "lam1": np.maximum(np.abs(th[:, names.index("lam1")]), 0.5) if "lam1" in names else 1,
               "lam2": np.maximum(np.abs(th[:, names.index("lam2")]), 0.5) if "lam2" in names else 1, "D": th[:, names.index("D")], "f_ref": th[:, -1],
               "tc": 1e-3 * col(S, "M") / 60}
    if model == "Pv2":
        # distance to where J has no component in the orbital plane, and to where the other body dominates chi_p
        m1, m2 = masses(S)
        m1, m2 = m1 / (m1 + m2), m2 / (m1 + m2)
        x1, y1, x2, y2 = (col(S, n) for n in ("s1x", "s1y", "s2x", "s2y"))
        jp = np.hypot(m1**2 * x1 + m2**2 * x2, m1**2 * y1 + m2**2 * y2)
        a1, a2 = (2 + 1.5 * m2 / m1) * m1**2, (2 + 1.5 * m1 / m2) * m2**2
        gap = np.abs(a1 * np.hypot(x1, y1) - a2 * np.hypot(x2, y2))
        for n in ("x", "y"):
            natural["s1" + n] = np.minimum(1, np.minimum(jp / m1**2, gap / a1))
            natural["s2" + n] = np.minimum(1, np.minimum(jp / m2**2, gap / a2))
    noise = 3e-16 * L.size(S, Mf)[0] + (1e-10 if model == "XAS" else 1e-13)
    for k, nm in enumerate(names + ["ln f"]):
        nat = natural.get(nm, 1.0) * np.ones(len(S))
        D = df if nm == "ln f" else slopes[:, k]
        with np.errstate(all="ignore"):
            rel = (np.sqrt((np.abs(D)**2).sum(1)) / size)
        alive = size * f**(7 / 6.0) > 1e-6 * (size * f**(7 / 6.0)).max(1)[:, None]
        fast = np.where(alive, rel, 0).max(1)
        step = np.clip(0.02 / np.maximum(fast, 1e-300), 1e-7 * nat, 1e-4 * nat)
        if nm in ("lam1", "lam2") and not model.endswith("t"):
            # stay on the same side of unit deformability
            step = np.minimum(step, np.maximum(np.abs(th[:, k] - 1), 1e-4) / 4)
            step = np.minimum(step, th[:, k] / 4)
        elif nm in ("lam1", "lam2"):
            # effective parameters: both deformabilities move; keep away from unit deformability
            l = np.minimum(np.abs(col(S, "l1") - 1), np.abs(col(S, "l2") - 1))
            step = np.minimum(step, l / 50)
        vals = {}
        for s in (-2, -1, 1, 2):
            if nm == "ln f":
                vals[s] = pl(f * np.exp(s * step)[:, None], th)
            else:
                t = th.copy()
                t[:, k] += s * step
                vals[s] = pl(f, t)
        num = (8 * (vals[1] - vals[-1]) - (vals[2] - vals[-2])) / (12 * step[:, None, None])
        low = (vals[1] - vals[-1]) / (2 * step[:, None, None])
        trunc = np.sqrt((np.abs(num - low)**2).sum(1))
        d = np.sqrt((np.abs(num - D)**2).sum(1))
        scale = np.sqrt((np.abs(D)**2).sum(1))
        # PhenomD's ringdown frequencies are piecewise linear in the final spin, in steps of 4e-6: their slope is
        # known to that resolution
        fine = model in ("D", "NRT", "NRTt", "Pv2") and nm not in ("D", "tc", "phic", "phiRef", "iota", "Mc", "ln f", "lam1", "lam2")
        if nm[:3] == "chi" or nm[-1] == "z":
            spin = [q for q, x in enumerate(names) if x[:3] == "chi" or x[-1] == "z"]
            scale = np.sqrt((np.abs(slopes[:, spin])**2).sum((1, 2)))
        tol = (5e-4 if fine else 2e-5) * scale + 1e-3 * trunc + (noise + 1e-12) * size / step[:, None] * 10 + 1e-7 * size / nat[:, None]
        if model.endswith("t"):
            e = col(S, "eta")
            d2 = 1 - 4 * e
            det = np.abs((1 + 7 * e - 31 * e**2) * (1 - 15910 / 1319 * e + 32850 / 1319 * e**2 + 3380 / 1319 * e**3) - d2 * (1 + 9 * e - 11 * e**2) * (1 - 13272 / 1319 * e + 8944 / 1319 * e**2))
            tol = tol + size / step[:, None] * (1e-15 * L.size(S, Mf)[1] / det[:, None])
        r = np.where(alive & (tol > 0), d / np.where(tol > 0, tol, 1), np.where(alive & ~(d <= tol), np.inf, 0))
        ctx.add(states=4 * len(S), validated=len(S), comparisons=d.size, transitions=4 * len(S))
        W["%s:%s" % (model, nm)] = float(r.max())
        for i in np.unique(np.where(~(r <= 1))[0])[:5]:
            j = int(np.argmax(r[i]))
            ctx.fail("slope:%s:%s" % (model, nm), "%s: derivative in %s at Mf=%.6g is %s, the strain's slope is %s (step %.3g) in %s" % (
                model, nm, Mf[j], D[i, :, j], num[i, :, j], step[i], L.describe(S[i])), state=L.describe(S[i]), Mf=Mf[j])
    ctx.sample(dict(model=model, state=L.describe(S[-1]), parameters=names))
