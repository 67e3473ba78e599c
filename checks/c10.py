"""Inclination enters through the quadrupole pattern only."""
import numpy as np
from mc import laws as L, models as m, refcheck as R
from mc.states import col


def run(ctx):
    L.per_model(ctx, "checks.c10", ["D", "XAS", "TF2", "TF2t", "NRT", "NRTt", "NRTn", "Pv2", "Pv2m"])
    ctx.notes["exhaustive"] = True


def part(ctx, model):
    g = L.grid(model)
    pi = np.pi
    iot = sorted({0, 1e-8, 1e-3, 0.2, 0.7, pi / 4, 1.3, pi / 2 - 1e-6, pi / 2, pi / 2 + 1e-3, 2.0, 2.9, pi - 1e-7, pi, -0.4, 3.9, 2 * pi}
                 | (set() if ctx.quick else set(np.linspace(0, pi, 60))))
    kw = dict(spins=L.SPINS[:6]) if ctx.quick else {}
    S, mv = L.sources(model, ctx.quick, plane=[(0, 0, 0, 0)], M=(60.0, 3.0), mfref=(0.004, 0.06), iotas=(0.0,), phic=0.7, tc=0.01, **kw)
    T, k, mv2 = L.cross(S, {"iota": iot})
    ctx.add(transitions=mv + mv2)
    c = np.cos(col(T, "iota"))
    tol = L.rounding(S, g)
    if not model.startswith("Pv2"):
        # both generators in one compiled function
        both, s = m.function(model), m.single(model)
        fn = lambda f, th, fr: both(f, th, fr) + (s(f, th[:-1], fr),)
    else:
        fn = m.function(model)
    h = np.concatenate([m.evaluate(model, T[i:i + 8192], g, fn=fn) for i in range(0, len(T), 8192)])
    if model.startswith("Pv2"):
        # face-on reference; the line of sight lies along J and L there. The angle of the source about the line of sight
        # is obtained from arccos near 1, which is good to the square root of rounding only.
        h0 = m.evaluate(model, S, g, fn=fn)
        L.compare(ctx, "faceon", model, h0, np.stack([h0[:, 0], -1j * h0[:, 0]], 1), 1e-10, S, g,
                  "face-on, cross is not -i times plus")
        h0 = h0[:, 0]
        tol = tol + 1e-10
        keep = (col(T, "iota") >= 0) & (col(T, "iota") <= pi)
        T, k, c, h = T[keep], k[keep], c[keep], h[keep]
    else:
        h, h3 = h[:, :2], h[:, 2]
        h0 = h3[np.searchsorted(k, np.arange(len(S)))]
        # the single strain does not know about the inclination
        same = np.abs(h3 - h0[k]) <= tol[k] * np.abs(h0[k])
        if not same.all():
            i = int(np.where(~same)[0][0])
            ctx.fail("single", "%s: the single strain depends on the inclination in %s" % (model, L.describe(T[i])), state=L.describe(T[i]))
    want = np.stack([h0[k] * ((1 + c**2) / 2)[:, None], -1j * h0[k] * c[:, None]], 1)
    L.compare(ctx, "pattern", model, h, want, tol[k], T, g, "polarisations are not the quadrupole pattern times the single strain")
    # the cross polarisation itself, also where it is small
    small = np.abs(c) < 0.05
    if small.any():
        e = np.abs(h[small, 1] - want[small, 1]) / np.maximum(np.abs(h0[k][small]), 1e-300)
        if not (e[np.abs(h0[k][small]) > 0] < 1e-9).all():
            i = int(np.where(small)[0][np.unravel_index(np.nanargmax(e), e.shape)[0]])
            ctx.fail("edgeon", "%s: cross polarisation nearly edge-on is off in %s" % (model, L.describe(T[i])), state=L.describe(T[i]))
    ctx.sample(dict(model=model, state=L.describe(T[-1])))
