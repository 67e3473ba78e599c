"""Finite everywhere, non-zero in band, exactly zero above it."""
import numpy as np
from mc import core, laws as L, models as m, refcheck as R, reflal
from mc.states import GT, col, masses

N = 64


def run(ctx):
    L.per_model(ctx, "checks.c13", ["D", "XAS", "Pv2", "Pv2m", "TF2", "TF2t", "NRT", "NRTt", "NRTn"])
    ctx.notes["exhaustive"] = True


def grids(end):
    """Grids [N] in units of the end of the band: below it, across it, above it, unordered."""
    near = 1 + np.concatenate([-np.geomspace(1e-9, 0.05, 12), np.geomspace(1e-9, 0.05, 12)])
    wide = np.geomspace(1e-5, 30, N - 24)
    g1 = np.sort(np.concatenate([near, wide]))
    g2 = np.geomspace(1e-6, 1 - 1e-6, N)
    g3 = np.geomspace(1 + 1e-6, 1e3, N)
    g4 = np.concatenate([g1[::2], g1[1::2][::-1]])
    g5 = np.linspace(0.9, 1.1, N)                 # fine and uniform across the end
    g6 = np.linspace(0.3, 1.7, N)                 # coarse and uniform
    return [g1, g2, g3, g4, g5, g6]


def part(ctx, model):
    pi = np.pi
    spins = [(0, 0), (0.5, -0.3), (1, 1), (-1, -1), (1, -1), (-1, 1), (0.9, 0.95), (-0.99, -0.99), (0.999, 0)]
    etas = [0.25, np.nextafter(0.25, 0), 0.25 - 1e-15, 0.25 - 1e-12, 0.25 - 1e-8, 0.249, 0.222, 0.16, 0.1, 0.05, 0.02, 0.012]
    lams = [(0, 0), (0, 500), (400, 600), (1, 1), (0.5, 1 + 1e-9), (5000, 1e4)]
    plane = [(0, 0, 0, 0), (0.3, 0, 0, 0), (0, 0, 0, 0.5), (1e-9, 0, 0, 0), (0.6, -0.6, 0.5, 0.5)]
    if model in L.TIDAL and ctx.quick:
        spins = spins[:6]
    S, mv = L.sources(model, ctx.quick, etas=etas, spins=spins, lams=lams, plane=plane, iotas=(0.4, 0.0, pi / 2, pi),
                      M=(60.0,), mfref=(0.005,))
    S2, mv2 = L.sources(model, ctx.quick, etas=[0.25, 0.2, 0.05], spins=[(0, 0), (0.7, -0.4)], lams=lams[::2], plane=plane[:3],
                        M=(0.1, 3.0, 500.0, 1e7), mfref=(1e-5, 0.05, 0.25, 0.5), iotas=(0.4,), tc=1.3, phic=0.7, D=1e5)
    S = np.concatenate([S, S2])
    if model.startswith("Pv2"):
        # f_ref far above the band makes the direction of J there meaningless for some spins; all stay finite
        pass
    ctx.add(transitions=mv + mv2)
    end = np.full(len(S), m.CUT.get(model, 0.2))
    if model in ("NRT", "NRTt"):
        end = reflal.tidal_parts(S, np.array([0.01]))[3] * col(S, "M") * GT * 1.2
    open_end = not np.isfinite(end).all()
    if open_end:
        end = np.full(len(S), 0.2)
    for gi, g in enumerate(grids(end)):
        Mf = g[None] * end[:, None]
        for i in range(0, len(S), 8192):
            s, F = S[i:i + 8192], Mf[i:i + 8192]
            h = m.evaluate(model, s, F)
            amp = np.sqrt((np.abs(h)**2).sum(1))
            ctx.add(states=len(s), validated=len(s), comparisons=2 * F.size)
            report(ctx, "finite", model, ~np.isfinite(h).all(1), s, F, h, "not finite", gi)
            if model in ("NRT", "NRTt"):
                # the taper rounds to zero a little before its end
                inb, out = g < 1.194 / 1.2, g > 1
                # a pole of the tidal phase makes the sign of the amplitude change; it never vanishes on a grid
            elif model == "NRTn" or open_end:
                inb, out = g < np.inf if model != "NRTn" else g < 1, g > np.inf
            else:
                inb, out = g < 1, g > 1
            report(ctx, "zero in band", model, (amp == 0) & inb, s, F, h, "zero below the end of the band", gi)
            report(ctx, "beyond", model, (amp != 0) & out, s, F, h, "not zero above the end of the band", gi)
    ctx.sample(dict(model=model, state=L.describe(S[-1])))


def report(ctx, key, model, bad, s, F, h, what, gi):
    if not bad.any():
        return
    ii = np.unique(np.where(bad)[0])
    for i in ii[:10]:
        j = int(np.where(bad[i])[0][0])
        ctx.fail("%s:%s" % (key, model), "%s: strain %s at Mf=%.12g (grid %d) in %s" % (model, what, F[i, j], gi, L.describe(s[i])),
                 model=model, state=L.describe(s[i]), Mf=F[i, j], h=h[i, :, j], grid=F[i])
    ctx.nfail += max(0, len(ii) - 10)
