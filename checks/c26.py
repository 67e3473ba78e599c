"""What the reference frequency may change."""
import numpy as np
from mc import laws as L, models as m, refcheck as R
from mc.states import col, j_along_l

FREF = [0.005, 1e-4, 5e-4, 0.002, 0.01, 0.0139999, 0.0140001, 0.0179999, 0.0180001, 0.03, 0.05, 0.07, 0.09, 0.12, 0.15, 0.19]


def run(ctx):
    L.per_model(ctx, "checks.c26", ["XAS", "Pv2", "Pv2m", "D", "TF2", "TF2t", "NRT", "NRTt"])
    ctx.notes["exhaustive"] = True


def part(ctx, model):
    q = ctx.quick
    kw = dict(lams=[(0, 0), (400, 600), (0.5, 30)], plane=[(0, 0, 0, 0)])
    if q:
        kw["spins"] = L.SPINS[:6] if model not in L.TIDAL else L.SPINS[:4]
    fr = FREF if not q or model in ("D", "XAS") else FREF[::2] + FREF[-1:]
    if not q:
        fr = sorted(set(FREF) | set(np.geomspace(1e-4, 0.199, 60)), key=lambda x: abs(x - 0.005))
    S, mv = L.sources(model, q, M=(60.0, 2.8), iotas=(0.8,), mfref=(0.005,), tc=0.013, phic=0.7, D=200.0, **kw)
    if model.startswith("Pv2"):
        for x in fr:
            S = S[j_along_l(L.with_(S, Mfref=x))]
    g = L.grid("D" if model.startswith("NRT") else model, 30)
    h0 = m.evaluate(model, S, g)
    # frequency that carries the constant factor: in the middle of the inspiral
    k = int(np.argmin(np.abs(g - (0.0015 if model.startswith("NRT") else 0.006))))
    W = ctx.notes.setdefault("worst_error_over_tolerance", {})
    for x in fr[1:]:
        T = L.with_(S, Mfref=x)
        h = m.evaluate(model, T, g)
        c = (h[:, 0, k] / h0[:, 0, k])
        tol = L.rounding(T, g, 1e-10) + L.rounding(T, g[k:k + 1], 0) + L.rounding(S, g, 0)
        bad = ~(np.abs(np.abs(c) - 1) <= 1e-9)
        for i in np.where(bad)[0][:5]:
            ctx.fail("size:" + model, "%s: changing f_ref to Mf=%.5g changes the amplitude by %.9g in %s" % (model, x, abs(c[i]), L.describe(S[i])), state=L.describe(S[i]))
        L.compare(ctx, "constant", model, h, h0 * c[:, None, None], tol, T, g, "changing f_ref to Mf=%.5g is not a constant phase" % x)
    ctx.add(transitions=mv + len(S) * (len(fr) - 1))
    ctx.sample(dict(model=model, state=L.describe(S[-1])))
    if model.startswith("Pv2"):
        return
    # phase of the single strain at the reference frequency itself, point-particle sources
    P = L.with_(S, tc=0.0, phic=0.0, iota=0.0)
    if model.startswith("NRT"):
        P = P[(col(P, "l1") == 0) & (col(P, "l2") == 0)]
        # the tidal model does not subtract its spin-induced quadrupole and tidal phases at f_ref (nor does LALSuite's)
        P = P[(col(P, "chi1") == 0) & (col(P, "chi2") == 0)]
    first = None
    # without taper the tidal model has a phase up to the ringdown
    mod = "NRTn" if model == "NRT" else model
    for x in fr:
        if model == "NRTt" and x > 0.0021:
            continue
        T = L.with_(P, Mfref=x)
        h = m.evaluate(mod, T, f=np.repeat(m.fref(T)[:, None], 2, 1))[:, 0, 0]
        u = h / np.abs(h)
        first = u[0] if first is None else first
        e = np.abs(u - first)
        tol = 1e-9 + 1e-14 * (R.phase_size(T, np.array([x]))[:, 0] + L.size(T, np.array([x]))[0][:, 0])
        ctx.add(states=len(T), validated=len(T), comparisons=len(T), transitions=len(T))
        W["%s:origin" % model] = max(W.get("%s:origin" % model, 0.0), float((e / tol).max()))
        for i in np.where(~(e <= tol))[0][:5]:
            ctx.fail("origin:" + model, "%s: phase at f_ref (Mf=%.5g) is %.9g, for the first source %.9g, in %s" % (model, x, np.angle(u[i]), np.angle(first), L.describe(T[i])), state=L.describe(T[i]))
