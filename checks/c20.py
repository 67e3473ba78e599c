"""Limits in which two models, or two ways of passing parameters, have to agree."""
import numpy as np
from mc import laws as L, models as m, refcheck as R
from mc.states import GT, MPC, CL, GN, MS, col, masses


def run(ctx):
    L.per_model(ctx, "checks.c20", ["low:XAS", "low:D,TF2,NRT", "NRTn", "Pv2", "Pv2m", "TF2t", "NRTt", "low:Pv2,NRTt,TF2t"])
    ctx.notes["exhaustive"] = True


def shifted(h, ref, Mf):
    """h with one phase and one time shift removed, such that it fits the reference best; and the shift."""
    num = (h * ref.conj()).sum(1)
    # the phase difference is linear in frequency: unwrap along the (dense) grid
    ph = np.unwrap(np.angle(num), axis=1)
    x = Mf - Mf.mean()
    s = ((ph - ph.mean(1, keepdims=True)) * x).sum(1) / (x * x).sum()
    a = ph.mean(1) - s * Mf.mean()
    return h * np.exp(-1j * (a[:, None] + s[:, None] * Mf))[:, None], s


def part(ctx, name):
    if name.startswith("low:"):
        for model in name[4:].split(","):
            low(ctx, model)
        return
    q = ctx.quick
    ext = dict(M=(60.0, 2.8), iotas=(0.4, 1.9), mfref=(0.004, 0.05), tc=0.013, phic=0.7, D=150.0)
    if name == "NRTn":
        # with spins the fit of the octupole moment is 0.3% off a black hole's, as in LALSuite
        S, mv = L.sources("NRTn", q, etas=sorted(set(L.ETAS) | set(np.linspace(0.01, 0.25, 60 if q else 600))), spins=[(0, 0)], lams=[(0, 0)], **ext)
        g = L.grid("D", 60)
        L.compare(ctx, "tidal_zero", "NRTn", m.evaluate("NRTn", S, g), m.evaluate("D", S, g), L.rounding(S, g, 1e-10), S, g,
                  "with zero deformabilities and no taper it is not PhenomD")
    elif name == "Pv2":
        S, mv = L.sources("Pv2", q, plane=[(0, 0, 0, 0)], **ext)
        g = np.linspace(5e-4, 0.1999, 400)
        for i in range(0, len(S), 512):
            s = S[i:i + 512]
            h, sh = shifted(m.evaluate("Pv2", s, g), m.evaluate("D", s, g), g)
            ref = m.evaluate("D", s, g)
            L.compare(ctx, "aligned", "Pv2", h, ref, np.where(col(s, "eta") < 0.03, 5e-6, 1e-6)[:, None] + L.rounding(s, g), s, g,
                      "with aligned spins it is not PhenomD up to a time and a phase shift")
            far = np.abs(sh) > np.maximum(600, 30 / col(s, "eta"))
            if far.any():
                k = int(np.where(far)[0][0])
                ctx.fail("aligned:shift", "Pv2 and D are %.4g M apart in time in %s" % (sh[k], L.describe(s[k])), state=L.describe(s[k]))
        ctx.sample(dict(model=name, largest_time_shift_in_M=float(np.abs(sh).max())))
    elif name == "Pv2m":
        S, mv = L.sources("Pv2", q, etas=L.ETAS if not q else L.ETAS[::2] + [0.25], spins=L.SPINS if not q else L.SPINS[:5], **ext)
        g = L.grid("Pv2", 60)
        L.compare(ctx, "mass_forms", "Pv2m", m.evaluate("Pv2m", S, g), m.evaluate("Pv2", S, g), L.rounding(S, g, 1e-9), S, g,
                  "component masses and chirp mass with mass ratio give different strains")
    else:
        kw = dict(spins=L.SPINS[:4]) if q else {}
        S, mv = L.sources(name, q, **ext, **kw)
        g = L.grid("TF2" if name == "TF2t" else "D", 40)
        L.compare(ctx, "tidal_forms", name, m.evaluate(name, S, g), m.evaluate(name[:-1], S, g), L.rounding(S, g, 1e-9, tildes=True), S, g,
                  "effective and individual tidal parameters of the same source give different strains")
    ctx.add(transitions=mv)
    ctx.sample(dict(model=name, state=L.describe(S[-1])))


def low(ctx, model):
    """Quadrupole-formula amplitude and chirp rate towards low frequency."""
    lams = [(0, 0), (400, 600)]
    S, mv = L.sources(model, True, etas=[0.25, 0.24, 0.2, 0.1, 0.03], spins=L.SPINS[:6], lams=lams, M=(60.0, 2.8, 1e4),
                      iotas=(0.0,), mfref=(0.004, 2e-4), tc=0.3, phic=0.7, D=150.0)
    Mf = np.geomspace(1e-6, 1e-4, 9)
    eta = col(S, "eta")[:, None]
    v = (np.pi * Mf)**(1 / 3.0)
    psi = 3 / (128 * eta) * v**-5
    eps = np.minimum(0.3 / np.sqrt(40 / 9 * psi), 1e-2)
    f0 = m.hertz(S, Mf)
    h = m.evaluate(model, S, f=np.concatenate([f0, f0 * (1 + eps), f0 * (1 - eps)], 1))
    h = h.reshape(len(S), 2, 3, len(Mf))
    want = np.sqrt(5 / 24.0) * np.pi**(-2 / 3.0) * (col(S, "M") * col(S, "eta")**0.6 * GT)[:, None]**(5 / 6.0) * f0**(-7 / 6.0) / (150.0 * MPC / CL)
    # first corrections: 1PN relative, 1.5PN with spins; the precessing model tilts the plane of the orbit by the spins
    amp = np.abs(h[:, :, 0])
    e = np.abs(amp / want[:, None] - 1).max(1)
    tol = 1e-9 + 4 * v**2 + 10 * v**3 + 0 * eta
    perp = np.abs(S[:, 4:8]).max(1) > 0
    if perp.any():
        # opening angle of the cone: S_perp/L ~ v/eta; and the orientation of the orbit relative to L at f_ref
        keep = ~perp
        e, tol = e[keep], tol[keep]
    rate = np.angle(h[:, :, 1] * h[:, :, 2] * h[:, :, 0].conj()**2)
    # second difference of frequency^(-5/3), exactly
    dd = (1 + eps)**(-5 / 3.0) + (1 - eps)**(-5 / 3.0) - 2
    r = np.abs(rate / (-psi * dd)[:, None] - 1).max(1)
    rtol = 1e-6 + 8 * v**2 + 120 * v**3 + 2e-15 * (psi + 2 * np.pi * f0 * 0.3) / (psi * dd)
    if perp.any():
        r, rtol = r[~perp], rtol[~perp]
        S = S[~perp]
    ctx.add(states=len(S), validated=len(S), transitions=mv, comparisons=e.size + r.size)
    W = ctx.notes.setdefault("worst_error_over_tolerance", {})
    W["low_amplitude:" + model] = float((e / tol).max())
    W["low_rate:" + model] = float((r / rtol).max())
    for key, what, x, t in (("low_amplitude", "amplitude is not the quadrupole formula's", e, tol), ("low_rate", "chirp rate is not the quadrupole formula's", r, rtol)):
        for i in np.unique(np.where(~(x <= t))[0])[:5]:
            j = int(np.argmax(x[i] / t[i]))
            ctx.fail(key + ":" + model, "%s: %s at Mf=%.4g: relative difference %.4g (allowed %.4g) in %s" % (model, what, Mf[j], x[i, j], t[i, j], L.describe(S[i])), state=L.describe(S[i]))
