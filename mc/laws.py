"""Sources and helpers shared by the checks that compare the models with themselves under transformations."""
import itertools
import numpy as np
from . import core, models as m, refcheck as R
from .states import COLS, COL, base, col, physical, j_along_l, masses, describe
from .lattice import product, union, dedupe

SPINS = [(0, 0), (0.5, -0.3), (-0.6, 0.4), (0.95, 0.9), (-0.9, -0.95), (0.3, 0.99), (-0.2, -0.1), (0.8, -0.8)]
ETAS = [0.24, 0.25, 0.25 - 1e-7, 0.222, 0.2, 0.16, 0.1, 0.05, 0.02]
LAMS = [(0, 0), (400, 600), (0.5, 0.9), (5000, 100), (1.5, 0.2)]
PLANE = [(0, 0, 0, 0), (0.3, 0, 0, 0), (0, -0.3, 0.2, 0.1), (-0.1, 0.25, 0.3, -0.05)]
IOTAS = [0.4, 0, 1.1, np.pi / 2, 2.0, np.pi]
TIDAL = ("TF2", "TF2t", "NRT", "NRTt", "NRTn", "NRTtn")


def sources(model, quick=True, etas=None, spins=None, lams=None, plane=None, M=(60.0,), iotas=(0.4,), mfref=(0.005,), **kw):
    """Full product of source parameters that matter to the model; and the number of moves of its graph."""
    etas = ETAS if etas is None else etas
    spins = SPINS if spins is None else spins
    if not quick:
        etas = sorted(set(etas) | {0.249, 0.23, 0.18, 0.13, 0.07, 0.035, 0.012}, reverse=True)
        spins = spins + [(0.1, 0.7), (-0.4, 0.9), (0.99, -0.99), (-0.75, -0.5)]
    lams = (LAMS if lams is None else lams) if model in TIDAL else [(0, 0)]
    plane = (PLANE if plane is None else plane) if model in ("Pv2", "Pv2m") else [(0, 0, 0, 0)]
    rows = []
    axes = (etas, spins, lams, plane, M, iotas, mfref)
    for e, s, l, p, mm, i, r in itertools.product(*axes):
        d = base(eta=e, chi1=s[0], chi2=s[1], l1=l[0], l2=l[1], s1x=p[0], s1y=p[1], s2x=p[2], s2y=p[3], M=mm, iota=i, Mfref=r)
        d.update(kw)
        rows.append([d[n] for n in COLS])
    rows = np.array(rows)
    moves = sum(len(rows) // len(a) * (len(a) - 1) for a in axes)
    S = physical(rows)
    if model in ("Pv2", "Pv2m"):
        S = S[j_along_l(S)]
    return S, moves


def grid(model, n=40, lo=5e-4, frac=0.9999):
    """Frequencies below the end of the band (of the fixed-end models), with ones next to the regime boundaries."""
    hi = m.CUT[model] * frac if np.isfinite(m.CUT.get(model, np.inf)) else 0.1999
    g = np.geomspace(lo, hi, n - 4)
    return np.unique(np.concatenate([g, [0.0139999, 0.0140001, 0.0179999, 0.0180001]]))


def with_(S, **kw):
    T = np.array(S, float, copy=True)
    for k, v in kw.items():
        T[:, COL[k]] = v
    return T


def cross(S, alph):
    """Every state with every combination of the alphabets; index of the original state of each; moves."""
    names = list(alph)
    vals = np.array(list(itertools.product(*[alph[n] for n in names])), float)
    T = np.repeat(S, len(vals), 0)
    V = np.tile(vals, (len(S), 1))
    for j, n in enumerate(names):
        T[:, COL[n]] = V[:, j]
    moves = sum(len(T) // len(alph[n]) * (len(alph[n]) - 1) for n in names)
    return T, np.repeat(np.arange(len(S)), len(vals)), moves


def compare(ctx, key, model, got, want, tol, S, Mf, what, extra=None, floor=None):
    """Both polarisations of [N, 2, NF] against the expected ones, relative to the joint size of the expected ones."""
    e, den = R.err(got, want)
    tol = np.broadcast_to(tol, e.shape)
    bad = ~(e <= tol)
    if floor is not None:
        d = np.maximum(np.abs(got[:, 0] - want[:, 0]), np.abs(got[:, 1] - want[:, 1]))
        bad &= ~(d <= floor)
    ctx.add(states=len(S), validated=len(S), comparisons=2 * e.size)
    w = ctx.notes.setdefault("worst_error_over_tolerance", {})
    k = "%s:%s" % (model, key)
    if e.size:
        r = np.where(bad | (floor is None), e / tol, 0)
        w[k] = max(w.get(k, 0.0), float(np.nanmax(r)))
    if bad.any():
        F = np.broadcast_to(Mf, e.shape)
        ii = np.unique(np.where(bad)[0])
        for i in ii[:20]:
            j = int(np.where(bad[i])[0][0])
            ctx.fail("%s:%s" % (key, model), "%s: %s: off by %.3g (relative; allowed %.3g) at Mf=%.6g in %s" % (
                model, what, e[i, j], tol[i, j], F[i, j], describe(S[i])), model=model, state=describe(S[i]), Mf=float(F[i, j]),
                got=got[i, :, j], want=want[i, :, j], extra=None if extra is None else extra[i])
        ctx.nfail += max(0, len(ii) - 20)


def per_model(ctx, module, names, procs=None, fn="part"):
    """Run module.part(sub-context, model) for each model in its own process and merge the results."""
    args = [(module, fn, ctx.pid, ctx.tier, ctx.seed, n) for n in names]
    for r in core.run_tasks(_part, args, procs or min(8, len(args))):
        if "error" in r:
            if r["repo"]:
                ctx.fail("exception:" + r["model"], "the code under test raised in %s: %s" % (r["model"], r["error"][-600:]), traceback=r["error"][-3000:])
                continue
            print(r["error"], flush=True)
            raise SystemExit(2)
        w = dict(ctx.notes.get("worst_error_over_tolerance", {}))
        ctx.merge(r)
        w.update(r["notes"].get("worst_error_over_tolerance", {}))
        if w:
            ctx.notes["worst_error_over_tolerance"] = w


def _part(a):
    import importlib, traceback
    module, fn, pid, tier, seed, name = a
    ctx = core.Ctx(pid, tier, seed)
    try:
        core.setup_jax()
        getattr(importlib.import_module(module), fn)(ctx, name)
    except Exception as e:
        tb = traceback.format_exc()
        return dict(error=tb, repo=core.from_repo(e) or "/src/ripplegw/" in tb, model=str(name))
    return ctx.export()


def size(S, Mf):
    """Sizes (whole phase, part of it that depends on the mass difference) in radians, for estimates of rounding."""
    eta = np.maximum(col(S, "eta")[:, None], 1e-3)
    Mf = np.asarray(Mf)
    mfr = col(S, "Mfref")[:, None]
    lo = np.minimum(Mf, np.where(mfr > 0, mfr, np.inf))
    hi = np.maximum(Mf, mfr)
    pre = 3 / (128 * eta)
    tid = pre * 100 * (col(S, "l1") + col(S, "l2"))[:, None] * (np.pi * hi)**(5 / 3.0)
    spin = pre * 40 * (np.abs(col(S, "chi1")) + np.abs(col(S, "chi2")))[:, None] * (np.pi * lo)**(-2 / 3.0) * (1 + tid * 0)
    quad = pre * 50 * (1 + 0.1 * (col(S, "l1") + col(S, "l2"))[:, None]**0.5) * ((col(S, "chi1")**2 + col(S, "chi2")**2)[:, None]) * (np.pi * lo)**(-1 / 3.0)
    whole = R.phase_size(S, Mf) + tid + spin + quad
    return whole, tid + spin + quad + 10


def rounding(S, Mf, base=1e-11, eps=2e-15, tildes=False):
    """Tolerance for two evaluations of the same source whose parameters differ by rounding.

    The masses follow from eta through sqrt(1 - 4 eta), which is known to eps/sqrt(1 - 4 eta) only."""
    whole, diff = size(S, Mf)
    if tildes:
        # the deformabilities follow from the effective parameters through a matrix that is nearly singular for unequal masses
        e = col(S, "eta")
        d2 = np.maximum(1 - 4 * e, 0)
        det = (1 + 7 * e - 31 * e**2) * (1 - 15910 / 1319 * e + 32850 / 1319 * e**2 + 3380 / 1319 * e**3) - d2 * (
            1 + 9 * e - 11 * e**2) * (1 - 13272 / 1319 * e + 8944 / 1319 * e**2)
        whole = whole + 10 * diff / np.abs(det)[:, None]
    d = np.sqrt(np.maximum(1 - 4 * col(S, "eta"), 0))[:, None]
    dm = np.where(d < 0.2, np.minimum(4e-8, 2e-15 / np.maximum(d, 1e-30)), 0)
    return base + eps * whole + dm * diff
