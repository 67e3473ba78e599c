"""Distance, coalescence time and coalescence phase as exact external factors."""
import numpy as np
from mc import laws as L, models as m, refcheck as R
from mc.states import GT, MPC, col

D_A = [400, 1e-3, 1, 40.5, 1e4, 1e6, 1e-7, 1e9]
TC_A = [0, 1e-4, 0.1, -0.1, 3.7, -250.0, 5000.0]
PHI_A = [0, 0.3, -1.2, np.pi / 2, np.pi, 4.0, 2 * np.pi, 9.0, -7.7, 100.0]


def run(ctx):
    L.per_model(ctx, "checks.c09", ["D", "XAS", "Pv2", "Pv2m", "TF2", "TF2t", "NRT", "NRTt"])
    ctx.notes["exhaustive"] = True


def part(ctx, model):
    g = L.grid(model)
    S, mv = L.sources(model, ctx.quick, etas=L.ETAS[::2], spins=L.SPINS[:5] if ctx.quick else L.SPINS,
                      M=(60.0, 3.0) if ctx.quick else (60.0, 3.0, 1e3), iotas=(0.4, 1.9), mfref=(0.005, 0.05))
    ctx.add(transitions=mv)
    if not len(S):
        return
    h0 = m.evaluate(model, S, g)
    step = 1 if not ctx.quick else max(1, len(S) // 40)
    # every source with every single value; a smaller set with every combination of values
    for alph, idx in (({"D": D_A}, slice(None)), ({"tc": TC_A}, slice(None)), ({"phic": PHI_A}, slice(None)),
                      ({"D": D_A[::2], "tc": TC_A[::2], "phic": PHI_A[::3]}, slice(0, None, step * (1 if ctx.quick else 5)))):
        T, k, mv = L.cross(S[idx], alph)
        b = h0[idx][k]
        if model.startswith("Pv2") and "phic" in alph:
            keep = ~(T[:, 4:8] != 0).any(1)  # the law in phic is for spins along the orbital angular momentum
            T, b = T[keep], b[keep]
        ctx.add(transitions=mv)
        for i in range(0, len(T), 8192):
            t, w = T[i:i + 8192], b[i:i + 8192]
            f = m.hertz(t, g)
            fac = 400 / col(t, "D")[:, None] * np.exp(-2j * np.pi * np.mod(f * col(t, "tc")[:, None], 1) + 2j * col(t, "phic")[:, None])
            h = m.evaluate(model, t, g)
            tol = L.rounding(t, g, tildes="t" in model[2:]) + 4e-16 * (30 * np.abs(col(t, "phic")[:, None]) + 60 * np.abs(f * col(t, "tc")[:, None]))
            L.compare(ctx, "+".join(alph), model, h, w * fac[:, None], tol, t, g,
                      "strain is not that of D=400, tc=0, phic=0 times 400/D exp(-2 pi i f tc + 2i phic)")
    ctx.sample(dict(model=model, state=L.describe(T[-1])))
