"""Exhaustive comparison of a model with its LALSuite reference over enumerated configuration spaces."""
import numpy as np
from .states import COL, COLS, GT, col, describe, masses
from .lattice import deviations, product, union, dedupe

ETA_Q = sorted({0.25, 0.25 - 1e-12, 0.25 - 1e-9, 0.25 - 1e-6, 0.2499, 0.249, 0.248, 0.246, 0.243, 0.24, 0.235, 0.23,
                0.222, 0.215, 0.21, 0.2, 0.19, 0.18, 0.17, 0.16, 0.15, 0.14, 0.13, 0.12, 0.11, 0.1, 0.09, 0.08,
                0.07, 0.06, 0.05, 0.045, 0.04, 0.035, 0.03, 0.025, 0.02, 0.017, 0.014, 0.012, 0.01, 0.006}, reverse=True)
CHI_Q = sorted({-1, -0.995, -0.97, -0.95, -0.9, -0.85, -0.8, -0.75, -0.7, -0.6, -0.5, -0.4, -0.3, -0.2, -0.1, -0.05,
                -0.01, -1e-4, -1e-8, 0, 1e-8, 1e-4, 0.01, 0.05, 0.1, 0.2, 0.3, 0.4, 0.45, 0.5, 0.55, 0.6, 0.65, 0.7,
                0.75, 0.8, 0.85, 0.9, 0.95, 0.97, 0.98, 0.99, 0.995, 0.999, 1}, key=lambda x: (abs(x), x))
M_A = [60, 0.2, 1, 2.8, 10, 30, 100, 200, 500, 1e4]
D_A = [400, 1e-3, 1, 40, 1e4, 1e5]
TC_A = [0, 0.1, -0.1, 3.7, -250.0]
PHIC_A = [0, 0.3, -1.2, np.pi / 2, np.pi, 4.0, 2 * np.pi, 9.0, -7.7]
IOTA_A = [0, 0.2, 0.7, np.pi / 4, 1.3, np.pi / 2, 2.0, 2.9, np.pi]
MFREF_A = [0.005, 4e-4, 0.001, 0.0139, 0.0141, 0.0179, 0.0181, 0.03, 0.06, 0.09, 0.12, 0.15, 0.19]


def mf_grid(n, lo, hi, extra=()):
    g = np.geomspace(lo, hi, n)
    g = np.concatenate([g, [x for x in extra if lo <= x <= hi]])
    return np.unique(g)


def phase_size(S, Mf):
    """Order of magnitude of the phase, whose rounding limits any comparison."""
    eta = col(S, "eta")[:, None]
    mfr = col(S, "Mfref")[:, None]
    lo = np.minimum(Mf, mfr)
    x = 3 / (128 * eta) * (np.pi * lo)**(-5 / 3.0)
    return x + 2 * np.pi * Mf / (col(S, "M")[:, None] * GT) * np.abs(col(S, "tc")[:, None]) + 100


def err(h, ref):
    """Largest difference of both polarisations relative to their joint size [N, NF]; and the joint size."""
    den = np.sqrt(np.abs(ref[:, 0])**2 + np.abs(ref[:, 1])**2)
    dif = np.maximum(np.abs(h[:, 0] - ref[:, 0]), np.abs(h[:, 1] - ref[:, 1]))
    with np.errstate(all="ignore"):
        e = np.where(den > 0, dif / np.where(den > 0, den, 1), np.where(dif == 0, 0, np.inf))
    return e, den


def explore(ctx, pool, model, parts, reference, tolerance, compare=None, piece=8192, procs=None):
    """Evaluate the model on every state of every part and compare with the reference.

    parts: list of (name, S [N, P], Mf [NF]). reference(S, Mf) -> list of futures; compare(h, ref, S, Mf) -> err [N, NF]."""
    from . import models
    jobs = []
    for name, S, Mf in parts:
        for i in range(0, len(S), piece):
            jobs.append((name, S[i:i + piece], Mf))
    futs = [reference(S, Mf) for _, S, Mf in jobs]
    worst, undefined = {}, 0
    for (name, S, Mf), fu in zip(jobs, futs):
        h = models.evaluate(model, S, Mf)
        ref = np.stack(pool.gather(fu)[:2], 1)
        fu.clear()
        ok = ~np.isnan(ref).any((1, 2))
        undefined += int((~ok).sum())
        S, h, ref = S[ok], h[ok], ref[ok]
        e = (compare or (lambda h, r, S, Mf: err(h, r)[0]))(h, ref, S, Mf)
        tol = tolerance(S, Mf)
        bad = ~(e <= tol)
        ctx.add(states=len(S), validated=len(S), comparisons=e.size * 2)
        w = np.nanmax(e / tol) if e.size else 0
        worst[name] = max(worst.get(name, 0.0), float(w))
        if len(S):
            ctx.sample(dict(part=name, state=describe(S[0])))
        if bad.any():
            for i in np.unique(np.where(bad)[0])[:50]:
                j = int(np.where(bad[i])[0][0])
                ctx.fail("ref:%s" % model, "%s differs from the reference by %.3g (relative; allowed %.3g) at Mf=%.6g in %s"
                         % (model, e[i, j], tol[i, j], np.broadcast_to(Mf, e.shape)[i, j], describe(S[i])),
                         model=model, part=name, state=describe(S[i]), Mf=float(np.broadcast_to(Mf, e.shape)[i, j]),
                         got=h[i, :, j], want=ref[i, :, j])
            ctx.nfail += max(0, int(bad.any(1).sum()) - 50)
    ctx.notes.setdefault("worst_error_over_tolerance", {}).update(
        {"%s:%s" % (model, k): v for k, v in worst.items()})
    ctx.notes["reference_undefined_states"] = ctx.notes.get("reference_undefined_states", 0) + undefined
