"""The common state of a source and the reference constants (hard-coded here, not taken from the code under test)."""
import numpy as np

MS = 1.988409902147041637325262574352366540e30
MRS = 1.476625038050124729627979840144936351e3
GN = 6.67430e-11
CL = 299792458.0
GT = GN * MS / CL**3
MPC = 3.085677581491367278913937957796471611e22

COLS = ["M", "eta", "chi1", "chi2", "s1x", "s1y", "s2x", "s2y", "l1", "l2", "D", "tc", "phic", "iota", "Mfref"]
COL = {n: i for i, n in enumerate(COLS)}
BASE = dict(M=60.0, eta=0.24, chi1=0.0, chi2=0.0, s1x=0.0, s1y=0.0, s2x=0.0, s2y=0.0, l1=0.0, l2=0.0,
            D=400.0, tc=0.0, phic=0.0, iota=0.0, Mfref=0.005)


def base(**kw):
    return dict(BASE, **kw)


def col(S, n):
    return S[..., COL[n]]


def masses(S):
    M, eta = col(S, "M"), col(S, "eta")
    d = np.sqrt(np.maximum(1 - 4 * eta, 0))
    return M * (1 + d) / 2, M * (1 - d) / 2


def describe(row):
    return {n: float(v) for n, v in zip(COLS, row)}


def physical(S, smax=1.0):
    """States with both spins at most one in magnitude."""
    n1 = np.sqrt(col(S, "chi1")**2 + col(S, "s1x")**2 + col(S, "s1y")**2)
    n2 = np.sqrt(col(S, "chi2")**2 + col(S, "s2x")**2 + col(S, "s2y")**2)
    return S[(n1 <= smax) & (n2 <= smax)]


def j_along_l(S, margin=0.02):
    """Total angular momentum at the reference frequency along L, in units of M^2: L (2PN) + spins, above a margin.

    Where it points the other way PhenomPv2 (also LALSuite's) does not describe the source."""
    eta = col(S, "eta")
    v = (np.pi * col(S, "Mfref"))**(1 / 3.0)
    L = eta / v * (1 + (1.5 + eta / 6) * v**2 + (27 / 8 - 19 / 8 * eta + eta**2 / 24) * v**4)
    m1, m2 = masses(S)
    M = col(S, "M")
    return L + (m1**2 * col(S, "chi1") + m2**2 * col(S, "chi2")) / M**2 > margin
