"""PhenomD against LALSuite IMRPhenomD."""
import numpy as np
from mc import core, reflal, refcheck as R
from mc.lattice import deviations, product, union
from mc.states import COLS, base
from mc.refcheck import *

APPROX, MODEL, MFMAX = "IMRPhenomD", "D", 0.19999
BOUND = (0.0139999, 0.0140001, 0.0179999, 0.0180001)


def spaces(quick, cut, bound, one=deviations):
    eta = R.ETA_Q if quick else sorted(set(R.ETA_Q) | set(np.linspace(0.008, 0.25, 40)), reverse=True)
    chi = R.CHI_Q if quick else sorted(set(R.CHI_Q) | set(np.linspace(-1, 1, 41)))
    # two interleaved grids of the same length, so that one compilation serves both
    n = 60 if quick else 240
    grid = R.mf_grid(n, 4e-4, cut, bound + (cut,))
    fine = R.mf_grid(n, 2e-4, cut * 0.99, bound + (cut,))
    k = min(len(grid), len(fine))
    low = [1e-6, 2e-5, 1e-4]
    grid, fine = np.concatenate([low, grid[-k:]]), np.concatenate([low, fine[-k:]])
    P1 = product(COLS, base(iota=0.7, phic=0.3), dict(eta=eta, chi1=chi, chi2=chi))
    alph = dict(eta=eta[::3], chi1=CHI_Q[::3], chi2=CHI_Q[::3], M=R.M_A, D=R.D_A, tc=R.TC_A, phic=R.PHIC_A,
                iota=R.IOTA_A, Mfref=[x for x in R.MFREF_A + [0.25] if x < cut])
    bases = [base(), base(eta=0.2, chi1=0.7, chi2=-0.4, M=30, tc=0.1, phic=0.3, iota=0.7, Mfref=0.003),
             base(eta=0.07, chi1=-0.8, chi2=0.9, M=100, tc=-0.1, phic=5, iota=2.3, Mfref=0.05)]
    P2 = union(*[deviations(COLS, b, alph, 2) for b in bases])
    if not quick:
        P2 = union(P2, deviations(COLS, bases[1], {a: v[::2] for a, v in alph.items()}, 3))
    # equal spins at low and high eta: the final spin sweeps its whole range in steps below the table spacing
    n = 1500 if quick else 6000
    P3 = union(*[product(COLS, base(eta=e, chi2=c2, iota=0.4), dict(chi1=np.linspace(-1, 1, n))) for e, c2 in
                 ((0.01, 0.0), (0.16, 0.3), (0.25, -0.2))])
    P4 = product(COLS, base(chi1=0.3, chi2=-0.6, iota=1.0), dict(eta=np.linspace(0.008, 0.25, n)))
    return [("spins x mass ratio", P1, grid), ("deviations", P2, fine), ("final spin scan", P3, grid),
            ("mass ratio scan", P4, grid)]


def run(ctx):
    pool = reflal.Pool(7)
    parts = spaces(ctx.quick, MFMAX, BOUND)
    ctx.add(transitions=sum(p[1][1] for p in parts))
    core.setup_jax()
    tol = lambda S, Mf: np.where(R.col(S, "chi1") > 0.96, np.where(R.col(S, "eta") < 0.03, 2e-5, 2e-6), 2e-7)[:, None] + 1e-12 * R.phase_size(S, Mf)
    R.explore(ctx, pool, MODEL, [(n, P[0], g) for n, P, g in parts],
              lambda S, Mf: pool.submit("fd", S, Mf, APPROX, False), tol)
    ctx.notes["exhaustive"] = True
    pool.close()
