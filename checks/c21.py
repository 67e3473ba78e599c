"""Rotations and reflections of a precessing source."""
import numpy as np
from mc import laws as L, models as m
from mc.states import col, masses

DELTA = [0.0, 1e-6, 0.3, -0.3, np.pi / 4, np.pi / 2, 2.0, -2.5, np.pi, 4.0, 2 * np.pi]


def run(ctx):
    L.per_model(ctx, "checks.c21", ["Pv2", "Pv2m"])
    ctx.notes["exhaustive"] = True


def rotate(S, d):
    c, s = np.cos(d), np.sin(d)
    x1, y1, x2, y2 = (col(S, n) for n in ("s1x", "s1y", "s2x", "s2y"))
    return L.with_(S, s1x=c * x1 - s * y1, s1y=s * x1 + c * y1, s2x=c * x2 - s * y2, s2y=s * x2 + c * y2, phic=col(S, "phic") - d)


def part(ctx, model):
    pi = np.pi
    plane = [(0.3, 0, 0, 0), (0, -0.3, 0.2, 0.1), (-0.1, 0.25, 0.3, -0.05), (0, 0, 0.2, 0.4), (1e-3, 0, 0, -2e-3), (0, 0, 0, 0),
             (0.95, 0, 0, 0), (0, 0.8, -0.4, 0.5), (0, 0, 0, 0.9), (0.02, 0, -0.85, 0), (-0.6, -0.6, 0.6, -0.6)]
    kw = dict(etas=[0.25, 0.24, 0.2, 0.1, 0.03], spins=[(0, 0), (0.5, -0.3), (-0.3, 0.4), (0.9, 0.8)]) if ctx.quick else {}
    S, mv = L.sources(model, ctx.quick, plane=plane, M=(60.0, 2.8), mfref=(0.004, 0.06), iotas=(0.0, 1e-3, 0.7, pi / 2, 2.2, pi), phic=1.1, tc=0.02, **kw)
    g = L.grid(model, 24)
    h = m.evaluate(model, S, g)
    m1, m2 = masses(S)
    j = np.hypot(m1**2 * col(S, "s1x") + m2**2 * col(S, "s2x"), m1**2 * col(S, "s1y") + m2**2 * col(S, "s2y")) / (m1 + m2)**2
    # angles about J are known to rounding over the size of the in-plane part of J, or of the angle to the line of sight
    tol = L.rounding(S, g, 1e-10) + (1e-14 / np.where(j > 0, j, 1))[:, None]
    deltas = DELTA if ctx.quick else sorted(set(DELTA) | set(np.linspace(-np.pi, np.pi, 25)))
    for d in deltas:
        T = rotate(S, d)
        L.compare(ctx, "rotation", model, m.evaluate(model, T, g), h * np.exp(-2j * d), tol, T, g,
                  "turning the in-plane spins by %.4g and the reference phase back is not a constant phase" % d)
    T = L.with_(S, s1x=-col(S, "s1x"), s1y=-col(S, "s1y"), s2x=-col(S, "s2x"), s2y=-col(S, "s2y"), iota=pi - col(S, "iota"))
    L.compare(ctx, "mirror", model, m.evaluate(model, T, g), h * np.array([1, -1])[None, :, None], tol, T, g,
              "the mirrored source does not give plus and minus cross")
    ctx.add(transitions=mv + len(S) * (len(deltas) + 1))
    ctx.sample(dict(model=model, state=L.describe(S[-1])))
