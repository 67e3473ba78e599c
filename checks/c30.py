"""Power radiated over all directions, by a quadrature on the sphere that is exact for the (2,2) modes."""
import itertools
import numpy as np
from mc import laws as L, models as m
from mc.states import base, col, COLS, physical, j_along_l, masses

PHI = (1 + 5**0.5) / 2


def directions(turn):
    """The twelve vertices of an icosahedron turned by `turn` (a spherical 5-design): inclinations and azimuths."""
    v = np.array([p for a in (-1, 1) for b in (-PHI, PHI) for p in ((0, a, b), (a, b, 0), (b, 0, a))])
    v /= np.linalg.norm(v[0])
    a, b = turn
    ry = np.array([[np.cos(a), 0, np.sin(a)], [0, 1, 0], [-np.sin(a), 0, np.cos(a)]])
    rz = np.array([[np.cos(b), -np.sin(b), 0], [np.sin(b), np.cos(b), 0], [0, 0, 1]])
    v = v @ (rz @ ry).T
    return np.arccos(np.clip(v[:, 2], -1, 1)), np.arctan2(v[:, 1], v[:, 0])


def run(ctx):
    L.per_model(ctx, "checks.c30", ["Pv2:a", "Pv2:b", "Pv2m:a", "D", "XAS", "TF2,NRTn"])
    ctx.notes["exhaustive"] = True


def power(model, S, g, turn):
    i, p = directions(turn)
    tot = 0
    for a, b in zip(i, p):
        h = m.evaluate(model, L.with_(S, iota=a, phic=b), g)
        tot = tot + (np.abs(h)**2).sum(1)
    return tot / len(i)


def part(ctx, name):
    q = ctx.quick
    if ":" not in name:
        for model in name.split(","):
            aligned(ctx, model)
        return
    model, half = name.split(":")
    turns = [(0.3, 0.1)] if q else [(0.3, 0.1), (1.1, -2.0), (0.0, 0.0)]
    g = np.unique(np.concatenate([np.geomspace(5e-4, 0.0139999, 14), np.linspace(0.0140001, 0.1999, 16)]))
    ins = g < 0.014
    etas = [0.25, 0.24, 0.2, 0.1, 0.04] if q else L.ETAS + [0.23, 0.18, 0.13, 0.07, 0.03]
    al = [(0, 0), (0.5, -0.3), (-0.5, 0.4), (0.85, -0.8)] if q else [(a, b) for a in (-0.8, -0.4, 0, 0.3, 0.6, 0.85) for b in (-0.8, -0.3, 0, 0.4, 0.8)]
    perp = [(0.3, 0, 0, 0), (0.05, 0, 0, 0), (0, -0.5, 0, 0), (0.2, 0.1, -0.1, 0.3), (0, 0, 0.2, -0.4), (-0.1, 0.3, 0.3, 0.3)]
    fr = [0.004, 0.0007, 0.05] if q else [0.004, 4e-4, 0.0015, 0.013, 0.03, 0.08]
    Ms = [60.0, 3.0] if q else [60.0, 3.0, 1000.0]
    k = {"a": 0, "b": 1}[half]
    rows = []
    axes = (etas, al, perp, fr, Ms)
    for e, s, p, r, M in itertools.product(*axes):
        d = base(eta=e, chi1=s[0], chi2=s[1], s1x=p[0], s1y=p[1], s2x=p[2], s2y=p[3], Mfref=r, M=M, D=300.0, tc=0.01)
        rows.append([d[n] for n in COLS])
    mv = sum(len(rows) // len(a) * (len(a) - 1) for a in axes)
    S = physical(np.array(rows))
    # final spin along L (its sign enters the model); direction of J well defined
    S = S[j_along_l(S)]
    m1, m2 = masses(S)
    x = m1**2 * col(S, "s1x") + m2**2 * col(S, "s2x")
    y = m1**2 * col(S, "s1y") + m2**2 * col(S, "s2y")
    S = S[np.hypot(x, y) / col(S, "M")**2 > 1e-4]
    if model == "Pv2":
        S = S[k::2]
    for t in turns:
        P = power(model, S, g, t)
        # inspiral: what the non-precessing source with the same aligned spins radiates, from its face-on strain
        Z = L.with_(S, s1x=0, s1y=0, s2x=0, s2y=0, iota=0.0)
        a0 = np.abs(m.evaluate("D", Z, g)[:, 0])**2
        want = a0 * 0.8
        report(ctx, "inspiral:" + model, "power radiated over all directions is not that of the non-precessing source", P[:, ins], want[:, ins], 1e-9, S, g[ins])
        # everywhere: only the size of the effective in-plane spin matters
        m1, m2 = masses(S)
        A1, A2 = 2 + 1.5 * m2 / m1, 2 + 1.5 * m1 / m2
        s1 = A1 * m1**2 * np.hypot(col(S, "s1x"), col(S, "s1y"))
        s2 = A2 * m2**2 * np.hypot(col(S, "s2x"), col(S, "s2y"))
        chip = np.maximum(s1, s2) / (A1 * m1**2)
        for ang in [2.0] if q else [2.0, -0.7]:
            T = L.with_(S, s1x=chip * np.cos(ang), s1y=chip * np.sin(ang), s2x=0, s2y=0, Mfref=0.003, tc=0.0)
            ok = (chip**2 + col(S, "chi1")**2 <= 1) & j_along_l(T)
            report(ctx, "effective:" + model, "power radiated over all directions depends on more than masses, aligned spins and the effective in-plane spin",
                   P[ok], power(model, T[ok], g, t), 1e-9, S[ok], g)
    ctx.add(transitions=mv + len(S) * 12 * len(turns))
    ctx.sample(dict(model=model, state=L.describe(S[-1])))


def aligned(ctx, model):
    S, mv = L.sources(model, True, M=(60.0, 3.0), iotas=(0.0,), mfref=(0.004,), tc=0.01, phic=0.0, D=300.0, **({} if not ctx.quick or model != "XAS" else dict(etas=L.ETAS[::2])))
    g = L.grid(model if model != "NRTn" else "D", 30)
    P = power(model, S, g, (0.3, 0.1))
    want = 0.8 * np.abs(m.evaluate(model, S, g)[:, 0])**2
    report(ctx, "aligned:" + model, "power radiated over all directions is not 4/5 of the face-on power", P, want, 1e-9, S, g)
    ctx.add(transitions=mv + 12 * len(S))


def report(ctx, key, what, got, want, tol, S, g):
    with np.errstate(all="ignore"):
        e = np.where(got == want, 0, np.abs(got / want - 1))
    ctx.add(states=12 * len(S), validated=12 * len(S), comparisons=12 * e.size)
    W = ctx.notes.setdefault("worst_error_over_tolerance", {})
    W[key] = max(W.get(key, 0), float(np.nanmax(e)) / tol) if e.size else 0
    bad = ~(e <= tol)
    ii = np.unique(np.where(bad)[0])
    for i in ii[:8]:
        j = int(np.where(bad[i])[0][0])
        ctx.fail(key, "%s: ratio-1 = %.4g at Mf=%.6g in %s" % (what, e[i, j], g[j], L.describe(S[i])), state=L.describe(S[i]), Mf=float(g[j]))
    ctx.nfail += max(0, len(ii) - 8)
