"""TaylorF2 against LALSuite TaylorF2."""
import numpy as np
from mc import core, reflal, refcheck as R
from mc.lattice import deviations, product, union
from mc.states import COLS, base, col

LAM = [0, 1e-3, 0.05, 0.3, 0.7, 0.999, 1.0, 1.001, 1.3, 2, 5, 20, 90, 400, 1500, 5000, 2e4]


def bns(**kw):
    return base(M=2.8, Mfref=0.0005, l1=400.0, l2=600.0, **kw)


def spaces(quick, hi=0.33, lo=2e-5):
    eta = [e for e in R.ETA_Q if e >= 0.02]
    q = 1
    grid = R.mf_grid(56 if quick else 200, lo, hi)
    lam = LAM if quick else sorted(set(LAM) | set(np.geomspace(0.01, 1e4, 16)))
    P1 = product(COLS, bns(iota=0.7, phic=0.3), dict(eta=eta[::q], chi1=R.CHI_Q[::q], chi2=R.CHI_Q[::q]))
    P2 = product(COLS, bns(iota=0.7, chi1=0.3, chi2=-0.2), dict(eta=eta[::q], l1=lam, l2=lam))
    P2b = product(COLS, bns(iota=0.7), dict(eta=[0.25, 0.24, 0.21, 0.16], chi1=[-0.9, -0.1, 0, 0.05, 0.8],
                                            chi2=[-0.9, -0.1, 0, 0.05, 0.8], l1=lam[::2], l2=lam[::2]))
    alph = dict(eta=eta[::3], chi1=R.CHI_Q[::3], chi2=R.CHI_Q[::3], l1=lam, l2=lam, M=R.M_A, D=R.D_A, tc=R.TC_A,
                phic=R.PHIC_A, iota=R.IOTA_A, Mfref=[0, 1e-4, 3e-4, 0.001, 0.005, 0.02, 0.1, 0.25])
    bases = [bns(), bns(eta=0.245, chi1=0.05, chi2=-0.4, tc=0.1, phic=0.3, iota=0.7),
             bns(eta=0.19, chi1=-0.6, chi2=0.9, tc=-0.1, phic=5, iota=2.3)]
    P3 = union(*[deviations(COLS, b, alph, 2) for b in bases])
    if not quick:
        P3 = union(P3, deviations(COLS, bases[1], {a: v[::2] for a, v in alph.items()}, 3))
    n = 600 if quick else 4000
    P4 = union(*[product(COLS, b, {k: v}) for b in bases[1:] for k, v in
                 dict(chi1=np.linspace(-1, 1, n), chi2=np.linspace(-1, 1, n), eta=np.linspace(0.02, 0.25, n),
                      l1=np.geomspace(1e-3, 2e4, n), l2=np.geomspace(1e-3, 2e4, n)).items()])
    return [("spins x mass ratio", P1, grid), ("deformabilities x mass ratio", P2, grid),
            ("spins x deformabilities", P2b, grid), ("deviations", P3, grid), ("scans", P4, grid)]


def run(ctx):
    pool = reflal.Pool(7)
    parts = spaces(ctx.quick)
    ctx.add(transitions=sum(p[1][1] for p in parts))
    core.setup_jax()

    def tol(S, Mf):
        x = np.maximum(Mf, col(S, "Mfref")[:, None]) * np.pi
        # size of the tidal phase, to which rounding of the masses also applies
        t = (col(S, "l1") + col(S, "l2"))[:, None] * x**(5 / 3.) / col(S, "eta")[:, None]**2
        lo = np.where(col(S, "Mfref")[:, None] > 0, np.minimum(Mf, col(S, "Mfref")[:, None]), Mf)
        ph = 3 / (128 * col(S, "eta")[:, None]) * (np.pi * lo)**(-5 / 3.)
        tc = 2 * np.pi * Mf / (col(S, "M")[:, None] * R.GT) * np.abs(col(S, "tc")[:, None])
        # the mass difference is known to rounding over itself only
        d = np.sqrt(np.maximum(1 - 4 * col(S, "eta"), 0))[:, None]
        return 3e-7 + 1e-11 * (t + ph + tc) + 2e-16 / np.maximum(d, 2e-8) * (t + 1000)
    R.explore(ctx, pool, "TF2", [(n, P[0], g) for n, P, g in parts],
              lambda S, Mf: pool.submit("fd", S, Mf, "TaylorF2", True), tol)
    ctx.notes["exhaustive"] = True
    pool.close()
