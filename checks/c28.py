"""The taper of the tidal model: ratio of the tapered to the untapered strain."""
import numpy as np
from mc import laws as L, models as m, reflal
from mc.states import GT, col

LAM = [(0, 0), (1e-6, 0), (0.5, 0.9), (1, 1), (1.5, 30), (400, 600), (600, 400), (100, 100), (5000, 100), (20, 5000), (5000, 5000), (12000, 20000), (1e5, 3), (1e5, 2e5)]


def run(ctx):
    L.per_model(ctx, "checks.c28", ["NRT", "NRTt", "NRT:end"])
    ctx.notes["exhaustive"] = True


def part(ctx, name):
    model = name.split(":")[0]
    q = ctx.quick
    spins = [(0, 0), (0.5, -0.3), (-0.6, 0.4), (0.95, 0.9), (-0.9, -0.95)]
    etas = [0.25, 0.25 - 1e-7, 0.24, 0.222, 0.2, 0.16, 0.1, 0.05, 0.02]
    lams = LAM
    if not q:
        etas = sorted(set(etas) | set(np.linspace(0.02, 0.25, 24)), reverse=True)
        lams = LAM + [(a, b) for a in (0, 3, 50, 900, 3000) for b in (0, 3, 50, 900, 3000)]
    if model == "NRTt":
        # the merger frequency follows from deformabilities that the effective parameters determine badly for unequal masses
        etas = [e for e in etas if e >= 0.2]
    kw = dict(D=100.0, tc=0.01, phic=0.4, iotas=(0.6,), mfref=(0.003,))
    S, mv = L.sources(model, True, etas=etas, spins=spins if name != "NRT:end" else spins[:2], lams=lams, M=(2.8, 60.0, 0.1), **kw)
    fm = np.concatenate([reflal.tidal_parts(S[i:i + 512], np.array([0.01]))[3] for i in range(0, len(S), 512)])    # Hz
    fm *= 4.925490947641266978e-06 / GT      # LALSuite's solar mass is not exactly that of the code
    if name == "NRT:end":
        return end(ctx, S, fm, mv)
    edge = 1e-7 if model == "NRTt" else 1e-9
    x = np.unique(np.concatenate([np.linspace(0.05, 0.95, 13), [0.999, 1 - edge * 10, 1 - edge], np.linspace(1 + edge, 1.2 - edge, 161),
                                  [1.2 - 10 * edge, 1.2 + edge, 1.2 + 10 * edge, 1.201], np.linspace(1.25, 3, 8)]))
    f = fm[:, None] * x
    h = m.evaluate(model, S, f=f, chunk=256)
    n = m.evaluate(model + "n", S, f=f, chunk=256)
    ctx.add(states=len(S), validated=len(S), transitions=mv, comparisons=h.size)
    if not (np.isfinite(h).all() and np.isfinite(n).all()):
        i = int(np.where(~(np.isfinite(h) & np.isfinite(n)).all((1, 2)))[0][0])
        ctx.fail("finite", "%s: strain not finite around the taper in %s" % (model, L.describe(S[i])), state=L.describe(S[i]))
        return
    # the untapered tidal amplitude may itself cross zero far above merger for large deformabilities
    big = np.abs(n) > 1e-6 * np.abs(n[:, :, :1])
    t = np.where(big, h / np.where(big, n, 1), np.nan)
    lo, hi = x <= 1 - edge, x >= 1.2 + edge
    mid = ~lo & ~hi
    rules = [("one", "taper is not one below the merger frequency", np.abs(t - 1)[:, :, lo], 1e-9, x[lo]),
             ("zero", "strain above 1.2 times the merger frequency is not zero", (h != 0)[:, :, hi] * 1.0, 0, x[hi]),
             ("real", "taper is not real", np.abs(t.imag), 1e-9, x),
             ("range", "taper leaves [0, 1]", np.maximum(-t.real, t.real - 1), 1e-9, x),
             ("same", "taper of the two polarisations differs", np.abs(t[:, :1] - t[:, 1:]), 1e-9, x)]
    tm = t.real[:, :, x >= 1 - 2 * edge]
    xm = x[x >= 1 - 2 * edge]
    rules.append(("falls", "taper rises", np.diff(tm, axis=2), 1e-9, xm[1:]))
    # smooth: bounded slope and second difference on the uniform part of the grid (the taper is 0.2 wide)
    u = (x > 1 + 2 * edge) & (x < 1.2 - 20 * edge)
    dx = np.diff(x[u]).max()
    d1 = np.diff(t.real[:, :, u], axis=2)
    rules.append(("smooth", "taper has a step", np.abs(d1), 30 * dx, x[u][1:]))
    # strictly inside, it is neither one nor zero
    ins = (x > 1.03) & (x < 1.17)
    rules.append(("inside", "taper is one or zero inside its range", 1.0 * ((t.real[:, :, ins] >= 1) | (t.real[:, :, ins] <= 0)), 0, x[ins]))
    W = ctx.notes.setdefault("worst_error_over_tolerance", {})
    for key, what, e, tol, xx in rules:
        e = np.where(np.isnan(e), 0, e)
        W["%s:%s" % (model, key)] = float(e.max() / max(tol, 1e-300))
        bad = np.where((e > tol).any((1, 2)))[0]
        ctx.nfail += max(0, len(bad) - 5)
        for i in bad[:5]:
            j = np.unravel_index(int(np.argmax(e[i])), e[i].shape)[1]
            ctx.fail(key + ":" + model, "%s: %s: %.6g at %.12g times the merger frequency in %s" % (model, what, e[i].max(), xx[j], L.describe(S[i])), state=L.describe(S[i]))
    ctx.sample(dict(model=model, state=L.describe(S[-1]), merger_Hz=float(fm[-1])))


def end(ctx, S, fm, mv):
    """The end of the band, found by bisection of the strain itself: depends on masses and deformabilities only, and falls
    with the deformabilities. The value where the taper passes 1/2 is found instead of the end, which rounding blurs."""
    def taper(f):
        h = m.evaluate("NRT", S, f=f[:, None].repeat(2, 1), chunk=512)[:, 0, 0]
        n = m.evaluate("NRTn", S, f=f[:, None].repeat(2, 1), chunk=512)[:, 0, 0]
        return np.where(np.abs(n) > 0, (h / np.where(n == 0, 1, n)).real, 0)
    lo, hi = np.full(len(S), 1e-4) / (col(S, "M") * GT), np.full(len(S), 1.0) / (col(S, "M") * GT)
    for _ in range(45):
        mid = np.sqrt(lo * hi)
        up = taper(mid) > 0.5
        lo, hi = np.where(up, mid, lo), np.where(up, hi, mid)
        ctx.add(states=len(S), transitions=len(S))
    half = np.sqrt(lo * hi)
    # the taper passes 1/2 in the middle, at 1.1 times the merger frequency
    e = np.abs(half / (1.1 * fm) - 1)
    # masses of almost equal bodies are known to the square root of rounding
    tol = np.where(col(S, "eta") > 0.2499, 1e-7, 1e-9)
    ctx.add(validated=len(S), comparisons=len(S))
    ctx.notes.setdefault("worst_error_over_tolerance", {})["half"] = float((e / tol).max())
    for i in np.where(e > tol)[0][:5]:
        ctx.fail("half", "taper passes 1/2 at %.12g Hz, 1.1 times LALSuite's merger frequency is %.12g, in %s" % (half[i], 1.1 * fm[i], L.describe(S[i])), state=L.describe(S[i]))
    key = {}
    for i, r in enumerate(S):
        k = tuple(float(x) for x in (r[0], r[1], col(r, "l1"), col(r, "l2")))
        key.setdefault(k, []).append(half[i])
    for k, v in key.items():
        ctx.add(comparisons=len(v))
        if max(v) / min(v) - 1 > 1e-9:
            ctx.fail("spin", "end of the taper depends on the spins: %s Hz for masses and deformabilities %s" % (v, k))
    for (M, e, a, b), v in key.items():
        for (M2, e2, a2, b2), w in key.items():
            if (M, e) == (M2, e2) and a <= a2 and b <= b2:
                ctx.add(comparisons=1)
                # for (almost) no deformability the fit is flat
                if w[0] > v[0] * (1 + 1e-9):
                    ctx.fail("order", "merger frequency rises with the deformabilities: %.12g Hz at %s, %.12g Hz at %s, M=%g eta=%g" % (v[0] / 1.1, (a, b), w[0] / 1.1, (a2, b2), M, e))
    ctx.add(transitions=mv)
    ctx.sample(dict(state=L.describe(S[0]), half_Hz=float(half[0])))
