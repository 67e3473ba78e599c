"""PhenomPv2 against LALSuite IMRPhenomPv2."""
import itertools
import numpy as np
from mc import core, reflal, refcheck as R
from mc.lattice import deviations, product, union, dedupe
from mc.states import COLS, COL, base, col, physical, j_along_l

S8 = [(0, 0, 0), (0.3, 0, 0.4), (0, 0.6, -0.5), (-0.57, 0.57, 0.57), (0, 0, 0.99), (0, 0, -0.9), (0.99, 0, 0),
      (0, -0.4, -0.8), (1e-3, 0, 0.2), (0.1, -0.2, 0), (1e-9, 1e-9, -0.3)]
PERP = [0, 1e-12, -1e-6, 0.01, -0.05, 0.2, -0.4, 0.6, -0.8, 0.95]


def vectors(b, etas, sp1, sp2, iotas, phics):
    rows = []
    for e, u, v, i, p in itertools.product(etas, sp1, sp2, iotas, phics):
        r = dict(b, eta=e, s1x=u[0], s1y=u[1], chi1=u[2], s2x=v[0], s2y=v[1], chi2=v[2], iota=i, phic=p)
        rows.append([r[n] for n in COLS])
    rows = np.array(rows)
    k = [len(x) for x in (etas, sp1, sp2, iotas, phics)]
    return rows, sum(len(rows) // n * (n - 1) for n in k)


def spaces(quick):
    cut = 0.19999
    grid = R.mf_grid(48 if quick else 100, 4e-4, cut, (0.0139999, 0.0140001, 0.0179999, 0.0180001))
    pi = np.pi
    etas = [0.25, 0.2499, 0.24, 0.222, 0.2, 0.16, 0.12, 0.1, 0.07, 0.05, 0.03, 0.02]
    iot = [0, 0.7, pi / 2, 2.2, pi]
    if not quick:
        etas = sorted(set(etas) | set(np.linspace(0.02, 0.25, 14)))
        iot = [0, 1e-3, 0.4, 0.7, 1.2, pi / 2, 2.2, 2.9, pi]
    P1 = vectors(base(Mfref=0.006), etas, S8, S8, iot, [1.1] if quick else [0, 1.1, 4.0])
    alph = dict(eta=[e for e in R.ETA_Q if e >= 0.01][::3], chi1=R.CHI_Q[::4], chi2=R.CHI_Q[::4], s1x=PERP, s1y=PERP, s2x=PERP, s2y=PERP,
                M=R.M_A, D=R.D_A, tc=R.TC_A[:4], phic=R.PHIC_A, iota=R.IOTA_A,
                Mfref=[x for x in R.MFREF_A if x < cut])
    bases = [base(), base(eta=0.2, chi1=0.5, s1x=0.3, s2y=0.4, chi2=-0.4, M=30, tc=0.1, phic=0.3, iota=0.7, Mfref=0.003),
             base(eta=0.07, chi1=-0.6, s1y=-0.5, s2x=0.6, chi2=0.6, M=100, tc=-0.1, phic=5, iota=2.3, Mfref=0.05)]
    P2 = union(*[deviations(COLS, b, alph, 2) for b in bases])
    if not quick:
        P2 = union(P2, deviations(COLS, bases[1], {a: v[::2] for a, v in alph.items()}, 3))
    n = 300 if quick else 2000
    P3 = union(*[product(COLS, b, {k: v}) for b in bases[1:] for k, v in
                 dict(s1x=np.linspace(-0.8, 0.8, n), s2y=np.linspace(-0.8, 0.8, n), chi1=np.linspace(-0.6, 0.7, n),
                      eta=np.linspace(0.02, 0.25, n), iota=np.linspace(0, pi, n), phic=np.linspace(0, 2 * pi, n),
                      Mfref=np.geomspace(4e-4, 0.19, n)).items()])
    # single-spin scan towards extremal final spin
    P4 = union(*[product(COLS, base(eta=e, iota=1.0, phic=0.4, s1y=sp), dict(chi1=np.linspace(-0.99, 0.99, n)))
                 for e, sp in ((0.02, 0.0), (0.05, 0.1), (0.16, 0.12), (0.25, 0.05))])
    return [(nm, (well_posed(physical(P[0])), P[1]), grid) for nm, P in
            (("spin vectors", P1), ("deviations", P2), ("scans", P3), ("final spin scan", P4))]


def well_posed(S):
    """Drop states where LALSuite loses the direction of J: an in-plane part of J that is not zero but so small that
    arccos(Jz/J) rounds to zero (LAL itself then jumps by a constant phase) or that it is what rounding leaves of spins
    that cancel, or J against L and spins aligned (where
    the direction of the line of sight about J is rounding noise when face-on or face-off)."""
    m1, m2 = R.masses(S)
    x = m1**2 * col(S, "s1x") + m2**2 * col(S, "s2x")
    y = m1**2 * col(S, "s1y") + m2**2 * col(S, "s2y")
    j = np.hypot(x, y) / col(S, "M")**2
    perp = np.abs(S[:, [COL[n] for n in ("s1x", "s1y", "s2x", "s2y")]]).max(1)
    return S[(j > 1e-6) | (perp == 0) & j_along_l(S)]


def slope_bound(S):
    """LALSuite takes the time of the peak from a spline through ten points around the ringdown frequency; its error
    grows with the phase (1/eta) and when the damping time gets large (extremal final spin)."""
    eta, chi = col(S, "eta"), np.hypot(col(S, "chi1"), np.hypot(col(S, "s1x"), col(S, "s1y")))
    return np.maximum(0.4, 0.065 / eta) * np.where(chi > 0.991, 10, 1)


def compare(h, ref, S, Mf):
    """Error after removing the best common time shift; too large a shift counts as an error."""
    num = (h * ref.conj()).sum(1)
    ph = np.angle(num)
    w = np.abs(num) / np.abs(num).sum(1, keepdims=True)
    w = np.ones_like(w)
    s = (w * ph * Mf).sum(1) / (w * Mf * Mf).sum(1)
    hr = h * np.exp(-1j * s[:, None] * Mf)[:, None, :]
    e, _ = R.err(hr, ref)
    bad = np.abs(s) > slope_bound(S)
    e[bad] = np.maximum(e[bad], np.abs(s[bad])[:, None])
    return e


def run(ctx):
    pool = reflal.Pool(7)
    parts = spaces(ctx.quick)
    ctx.add(transitions=sum(p[1][1] for p in parts))
    core.setup_jax()
    tol = lambda S, Mf: np.where(col(S, "eta") < 0.03, 1e-6, 1e-7)[:, None] + 1e-11 * R.phase_size(S, Mf)
    R.explore(ctx, pool, "Pv2", [(n, P[0], g) for n, P, g in parts],
              lambda S, Mf: pool.submit("fd", S, Mf, "IMRPhenomPv2", False), tol, compare)
    ctx.notes["exhaustive"] = True
    pool.close()
