"""Search for jumps of the strain along every parameter: dense scans, every interval bisected towards the larger change."""
import lalsimulation as lalsim
import numpy as np
from mc import laws as L, models as m, refcheck as R
from mc.states import COL, GT, base, col, masses, describe, COLS


def run(ctx):
    L.per_model(ctx, "checks.c29", ["XAS", "Pv2", "D", "TF2", "NRT", "TF2t", "NRTt"])
    ctx.notes["exhaustive"] = True


def bases(model):
    b = [dict(), dict(eta=0.2, chi1=0.5, chi2=-0.4, l1=300, l2=700, M=30.0, tc=0.01, phic=0.3, iota=0.7, Mfref=0.003),
         dict(eta=0.05, chi1=-0.3, chi2=0.6, l1=0.3, l2=2000, M=100.0, phic=5.0, iota=2.3, Mfref=0.03),
         dict(eta=0.1, chi1=0.95, chi2=0.95, l1=5, l2=0.5, M=3.0, iota=1.2, Mfref=0.0005)]
    if model == "Pv2":
        for d, p in zip(b, [(0.3, 0, 0, 0), (0.2, 0.3, -0.4, 0.1), (0, -0.3, 0.3, 0.3), (0.02, 0.05, 0.1, 0)]):
            d.update(zip(("s1x", "s1y", "s2x", "s2y"), p))
    if model.endswith("t"):
        b = [dict(d, eta=max(d.get("eta", 0.24), 0.18)) for d in b]
    return [base(**d) for d in b]


def axes(model, n, b):
    """Parameter -> ends of the intervals. The masses are scanned in (m1 - m2)/M, where the strain has a finite slope."""
    def lin(a, b, k=n, near=()):
        """Even steps, and points close to special values on both sides."""
        x = [np.linspace(a, b, k + 1)] + [np.array([c, c - d, c + d]) for c in near for d in (1e-2, 1e-3, 1e-5, 1e-8)]
        x = np.unique(np.concatenate(x))
        return x[(x >= a) & (x <= b)]
    ax = dict(delta=np.concatenate([[0], np.geomspace(1e-6, 0.02, n // 4), lin(0.02, 0.97 if not model.endswith("t") else 0.55)[1:]]),
              chi1=lin(-1, 1, n, (0, b["chi2"], -b["chi2"], -1, 1)), chi2=lin(-1, 1, n, (0, b["chi1"], -b["chi1"], -1, 1)), iota=lin(-0.3, 2 * np.pi, n // 2, (0, np.pi / 2, np.pi)), phic=lin(-7, 7, n // 2, (0, np.pi, -np.pi)), M=np.geomspace(0.2, 1e4, n // 2),
              Mfref=np.geomspace(2e-4, 0.2, n // 2), D=np.geomspace(1e-3, 1e5, n // 4), tc=lin(-2, 2, n // 4))
    if model == "Pv2":
        ax.update(chi1=lin(-0.45, 0.9, n, (0, b["chi2"])), chi2=lin(-0.9, 0.9, n, (0, b["chi1"])), **{k: lin(-0.95, 0.95, n, (0,)) for k in ("s1x", "s1y", "s2x", "s2y")})
    if model in L.TIDAL:
        l = np.unique(np.concatenate([[0], np.geomspace(1e-9, 1e4, n), np.linspace(0, 2, n // 2), np.linspace(0, 6000, n // 2), [1 - 1e-3, 1 - 1e-6, 1 + 1e-6, 1 + 1e-3, b["l1"], b["l2"], b["l1"] * 1.001, b["l2"] * 1.001]]))
        ax.update(l1=l, l2=l)
        if model == "TF2":
            ax.pop("Mfref")
            ax["Mfref"] = np.geomspace(2e-4, 0.2, n // 2)
    return ax


def state(b, nm, x):
    """Rows of the base with parameter nm set to the values x."""
    S = np.tile([float(b[n]) for n in COLS], (len(x), 1))
    if nm == "delta":
        S[:, COL["eta"]] = (1 - x * x) / 4
    else:
        S[:, COL[nm]] = x
    return S


def part(ctx, model):
    n = 240 if ctx.quick else 2000
    steps = 17
    cut = m.CUT.get(model, 0.1)
    one, three = [0.0021, 0.0072, 0.0211, 0.0333, 0.0511, 0.0777, 0.131], [0.003, 0.0151, 0.04, 0.0953]
    if model == "XAS":
        one = [0.0021, 0.0072, 0.0333, 0.0511, 0.0777, 0.21]
        three = [0.003, 0.0151, 0.04, 0.0953, 0.131]
    elif model[0] == "N":
        one, three = [0.0011, 0.0021, 0.0051, 0.0111, 0.0251, 0.041], [0.003, 0.0072, 0.0151, 0.0333]
    # some frequencies alone, and groups of three close ones, whose phases change little against each other
    Mf = np.array(one + [x * c for x in three for c in (0.94, 1, 1.06)])
    group = len(one)
    A, B, who = [], [], []
    bs = bases(model)
    for k, b in enumerate(bs):
        for nm, x in axes(model, n, b).items():
            if nm in ("D", "tc", "phic", "M") and k > 1:
                continue
            if nm[0] == "s" or nm[:3] == "chi":
                # both spins stay at most one in size
                i = 1 if "1" in nm else 2
                rest = sum(b[q]**2 for q in ("s%dx" % i, "s%dy" % i, "chi%d" % i) if q != nm)
                x = x[x**2 <= 1 - rest + 1e-12]
            A.append(state(b, nm, x[:-1])), B.append(state(b, nm, x[1:]))
            who += [(k, nm)] * (len(x) - 1)
    A, B = np.concatenate(A), np.concatenate(B)
    if model == "Pv2":
        ok = regular(A) & regular(B)
        A, B, who = A[ok], B[ok], [w for w, o in zip(who, ok) if o]
    who = np.array(["%d %s" % w for w in who])
    ev = lambda S: m.evaluate(model, S, Mf)
    ha, hb = ev(A), ev(B)
    ctx.add(states=2 * len(A), transitions=len(A))

    def change(a, b, S):
        # relative to the strain, but to no less than a small part of the inspiral amplitude
        den = np.sqrt((np.abs(a)**2).sum(1))
        ref = den[:, :1] * (Mf / Mf[0])**(-7 / 6.0)
        return (np.abs(a - b).max(1) / np.maximum(den, 1e-4 * ref)).max(1)

    for s in range(steps):
        # four parts; the one whose change stands out goes on
        mid = halfway(A, B)
        X = [A, halfway(A, mid), mid, halfway(mid, B), B]
        H = [ha] + [ev(x) for x in X[1:4]] + [hb]
        k = choose(np.stack([parts_of(h, Mf, group) for h in H]))
        r = np.arange(len(A))
        X, H = np.stack(X), np.stack(H)
        A, B, ha, hb = X[k, r], X[k + 1, r], H[k, r], H[k + 1, r]
        ctx.add(states=3 * len(A), transitions=4 * len(A))
    e = change(ha, hb, A)
    whole, diff = L.size(A, Mf)
    # what is left of the smooth change over the final intervals, and rounding (also of masses of nearly equal bodies)
    tol = 2e-5 + 4e-15 * whole.max(1) + np.where(col(A, "eta") > 0.2499999, 3e-7 * (diff.max(1) + 100), 0)
    if model.endswith("t"):
        tol = tol + 1e-13 * whole.max(1) * 100
    W = ctx.notes.setdefault("worst_error_over_tolerance", {})
    for w in np.unique(who):
        W["%s:%s" % (model, w)] = float((e / tol)[who == w].max())
    ctx.add(validated=len(A), comparisons=e.size)
    bad = np.where(~(e <= tol))[0]
    ctx.nfail += max(0, len(bad) - 10)
    for i in bad[:10]:
        ctx.fail("jump:" + model, "%s: strain jumps by %.3g (relative) along %s between %s and %s" % (model, e[i], who[i].split()[1], describe(A[i]), {n: float(v) for n, v, o in zip(COLS, B[i], A[i]) if v != o}),
                 below=describe(A[i]), above=describe(B[i]))
    ctx.notes["intervals:" + model] = len(A)
    ctx.sample(dict(model=model, scan=who[-1], interval=[describe(A[-1]), describe(B[-1])]))


def parts_of(h, Mf, group):
    """Real quantities [N, C] that a jump of the strain shows in: the strain, its size, and the curvature of its phase."""
    den = np.sqrt((np.abs(h)**2).sum(1))
    g = (h / np.maximum(den, 1e-4 * den[:, :1] * (Mf / Mf[0])**(-7 / 6.0))[:, None])
    # relative to the other frequencies, the size
    rel = np.log(np.maximum(np.abs(h), 1e-8 * den[:, None, :1]))
    q = [g[..., k] * g[..., k + 2] * np.conj(g[..., k + 1])**2 for k in range(group, h.shape[2], 3)]
    z = np.concatenate([g.reshape(len(h), -1)] + [x.reshape(len(h), -1) for x in q], 1)
    return np.concatenate([z.real, z.imag, rel.reshape(len(h), -1)], 1)


def choose(P):
    """Which of the four parts to go on with. Quantities that change a lot in every part tell nothing while others do not."""
    d = np.diff(P, axis=0)                                      # [4, N, C]
    odd = np.sort(np.abs(d - np.median(d, 0)), 0)
    rough = np.sort(np.abs(d), 0)[2]
    score = odd[3] / (odd[2] + 1e-7)
    score = np.where(rough > 0.1, 1e-6 * np.minimum(score, 1e3), score)
    score = np.where(np.isfinite(d).all(0), score, np.inf)
    c = np.argmax(score, 1)
    r = np.arange(P.shape[1])
    e = np.abs(d - np.median(d, 0))[:, r, c]
    return np.argmax(np.nan_to_num(e, nan=np.inf), 0)


def halfway(A, B):
    mid = (A + B) / 2
    # intervals in eta stem from intervals in (m1 - m2)/M
    da, db = (np.sqrt(np.maximum(1 - 4 * col(X, "eta"), 0)) for X in (A, B))
    mid[:, COL["eta"]] = np.where(da == db, col(A, "eta"), (1 - ((da + db) / 2)**2) / 4)
    return mid


def regular(S):
    """Where the precessing model (also LALSuite's) has no discontinuity: J along L, and the final spin not reversed."""
    m1, m2 = masses(S)
    # final spin of LALSuite's PhenomD along L, whose sign that of the precessing model takes
    af = np.array([lalsim.SimIMRPhenomDFinalSpin(*map(float, x)) for x in zip(m1, m2, col(S, "chi1"), col(S, "chi2"))])
    return L.j_along_l(S) & (af > 1e-3)
