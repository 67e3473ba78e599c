"""Scaling with total mass."""
import numpy as np
from mc import laws as L, models as m, refcheck as R
from mc.states import col


def run(ctx):
    L.per_model(ctx, "checks.c11", ["D", "XAS", "Pv2", "Pv2m", "TF2", "TF2t", "NRT", "NRTt", "NRTn"])
    ctx.notes["exhaustive"] = True


def part(ctx, model):
    g = L.grid(model)
    # up to supermassive; whole powers of two, where only rounding of the chirp mass differs, and others
    ks = [2.0**-6, 1e-6, 1 / 900., 1 / 60., 0.05, 0.3, 0.5, 1 + 1e-6, 1.7, 4, 10, 1 / 3., 123.4, 2.0**12, 1e5, 1e7]
    if not ctx.quick:
        ks += list(np.geomspace(1 / 60., 1e7, 40))
    S, mv = L.sources(model, ctx.quick, iotas=(0.4,), mfref=(0.005, 0.05), phic=0.7,
                      **(dict(etas=L.ETAS[::2]) if model in L.TIDAL and ctx.quick else {}))
    h0 = m.evaluate(model, S, g)
    T, k, mv2 = L.cross(S, {"M": [60 * x for x in ks]})
    ctx.add(transitions=mv + mv2)
    for i in range(0, len(T), 8192):
        t, kk = T[i:i + 8192], k[i:i + 8192]
        h = m.evaluate(model, t, g)
        r = col(t, "M") / 60
        tol = 10 * L.rounding(t, g, 1e-10, tildes="t" in model[2:])
        L.compare(ctx, "scale", model, h, h0[kk] * (r**2)[:, None, None], tol, t, g, "strain does not scale as the square of the total mass")
    # with the coalescence time scaled as well
    T, k, mv2 = L.cross(S[::5], {"M": [60 * x for x in ks[::3]]})
    T[:, L.COL["tc"]] = 0.02 * T[:, L.COL["M"]] / 60
    h0 = m.evaluate(model, L.with_(S[::5], tc=0.02), g)
    h = m.evaluate(model, T, g)
    tol = 10 * L.rounding(T, g, 1e-10, tildes="t" in model[2:])
    L.compare(ctx, "scale tc", model, h, h0[k] * ((col(T, "M") / 60)**2)[:, None, None], tol, T, g, "strain with a coalescence time does not scale with the total mass")
    ctx.sample(dict(model=model, state=L.describe(T[-1])))
