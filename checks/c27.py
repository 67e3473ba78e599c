"""Exchange of the bodies of an equal-mass binary, and the approach to equal masses."""
import numpy as np
from mc import laws as L, models as m, refcheck as R
from mc.states import col

LAM = [(0, 0), (400, 600), (0, 700), (0.5, 0.9), (0.5, 30), (5000, 100), (1, 1.5), (1 - 1e-9, 1 + 1e-9)]


def run(ctx):
    L.per_model(ctx, "checks.c27", ["XAS", "Pv2", "Pv2m", "D", "TF2", "TF2t", "NRT", "NRTt", "NRTn", "conversions"])
    ctx.notes["exhaustive"] = True


def exchange(S):
    return L.with_(S, chi1=col(S, "chi2"), chi2=col(S, "chi1"), s1x=col(S, "s2x"), s1y=col(S, "s2y"), s2x=col(S, "s1x"), s2y=col(S, "s1y"),
                   l1=col(S, "l2"), l2=col(S, "l1"))


def part(ctx, model):
    if model == "conversions":
        return conversions(ctx)
    q = ctx.quick
    c = [-1, -0.9, -0.5, -0.1, 0, 0.05, 0.3, 0.7, 0.95, 1] if not q else [-0.95, -0.5, 0, 0.3, 0.7, 0.99]
    spins = [(a, b) for a in c for b in c]
    if model in L.TIDAL and q:
        spins = spins[::3]
    plane = [(0, 0, 0, 0), (0.3, 0, 0, 0), (0, 0, 0.1, 0.3), (0, -0.3, 0.2, 0.1), (0.2, 0.1, 0.2, 0.1)]
    kw = dict(M=(60.0, 2.8), mfref=(0.004, 0.06), iotas=(0.9,), phic=0.5, tc=0.01, D=100.0)
    S, mv = L.sources(model, True, etas=[0.25], spins=spins, lams=LAM, plane=plane, **kw)
    g = L.grid(model if not model.startswith("NRT") else "D", 40)
    T = exchange(S)
    ht = m.evaluate(model, T, g)
    L.compare(ctx, "exchange", model, m.evaluate(model, S, g), ht, L.rounding(S, g, 1e-9), S, g, "exchanging the bodies changes the strain")
    ctx.add(transitions=mv + len(S))
    # approach: the difference shrinks at least in proportion to the mass difference, once it is small
    S, mv = L.sources(model, True, etas=[0.25], spins=spins[::4 if q else 2], lams=LAM[1:7:2], plane=plane[:4], **dict(kw, M=(60.0,), mfref=(0.004,)))
    h0 = m.evaluate(model, S, g)
    den = np.sqrt((np.abs(h0)**2).sum(1))
    prev = None
    steps = [1e-1, 3e-2, 1e-2, 3e-3, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7]
    worst = 0.0
    for k, d in enumerate(steps):
        h = m.evaluate(model, L.with_(S, eta=(1 - d * d) / 4), g)
        with np.errstate(all="ignore"):
            e = np.where(den > 0, np.abs(h - h0).max(1) / np.where(den > 0, den, 1), np.abs(h).max(1) > 0).max(1)
        ctx.add(states=len(S), validated=len(S), comparisons=h.size, transitions=len(S))
        if prev is not None:
            ratio = d / steps[k - 1]
            floor = 1e-7 + 4e-8 * L.size(S, g)[1].max(1) + 1e-14 * L.size(S, g)[0].max(1)
            bad = (prev < 0.05) & ~(e <= 1.6 * ratio * prev + floor)
            worst = max(worst, float(np.where(prev < 0.05, e / (1.6 * ratio * prev + floor), 0).max()))
            for i in np.where(bad)[0][:5]:
                ctx.fail("approach:" + model, "%s: strain differs from the equal-mass one by %.3g at (m1-m2)/M=%.0e, %.3g at %.0e, in %s" % (
                    model, prev[i], steps[k - 1], e[i], d, L.describe(S[i])), state=L.describe(S[i]))
        prev = e
    ok = prev < 1e-3 + 1e-6 * L.size(S, g)[0].max(1)
    if not ok.all():
        i = int(np.where(~ok)[0][0])
        ctx.fail("approach:" + model, "%s: no convergence to equal masses: still off by %.3g at 1e-7 in %s" % (model, prev[i], L.describe(S[i])), state=L.describe(S[i]))
    ctx.notes.setdefault("worst_error_over_tolerance", {})[model + ":approach"] = worst
    ctx.add(transitions=mv)
    ctx.sample(dict(model=model, state=L.describe(S[-1])))


def conversions(ctx):
    import ripplegw as r
    for l1 in (0, 0.3, 1, 12.5, 400, 600, 5000, 1e5):
        for l2 in (0, 0.3, 1, 12.5, 400, 600, 5000, 1e5):
            for mass in (0.1, 1.4, 2.0, 30.0):
                a = np.array(r.lambdas_to_lambda_tildes(np.array([l1, l2, mass, mass])), float)
                b = np.array(r.lambdas_to_lambda_tildes(np.array([l2, l1, mass, mass])), float)
                ctx.add(states=2, validated=1, comparisons=2, transitions=1)
                if not (abs(a[0] - b[0]) <= 1e-12 * max(l1, l2, 1e-30) and abs(a[1] + b[1]) <= 1e-7 * max(l1, l2, 1e-30)):
                    ctx.fail("tildes", "effective tidal parameters of equal masses %g with deformabilities %g, %g: %s, exchanged %s" % (mass, l1, l2, a, b))
    ctx.sample(dict(model="conversions", state="deformability pairs"))
