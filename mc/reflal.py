"""Reference waveforms from LALSuite. Imports neither JAX nor the code under test, so it is safe in worker processes."""
import math
import numpy as np
from .states import COL, MS, GT, masses


def _init():
    import lal
    lal.ClobberDebugLevel(0)
    lal.swig_redirect_standard_output_error(False) if hasattr(lal, "swig_redirect_standard_output_error") else None


def _dict(ls, lal, r, tidal):
    d = lal.CreateDict()
    if tidal:
        l1, l2 = float(r[COL["l1"]]), float(r[COL["l2"]])
        ls.SimInspiralWaveformParamsInsertTidalLambda1(d, l1)
        ls.SimInspiralWaveformParamsInsertTidalLambda2(d, l2)
        ls.SimInspiralWaveformParamsInsertdQuadMon1(d, ls.SimUniversalRelationQuadMonVSlambda2Tidal(l1) - 1)
        ls.SimInspiralWaveformParamsInsertdQuadMon2(d, ls.SimUniversalRelationQuadMonVSlambda2Tidal(l2) - 1)
    return d


def fd(approx, S, Mf, tidal=False):
    """hp, hc [N, NF] of a LAL approximant on the frequencies Mf/(M GT) of each state; nan where LAL refuses.

    A nonzero tc multiplies the reference by exp(-2 pi i f tc), the convention of all the models."""
    import lal, lalsimulation as ls
    _init()
    S = np.atleast_2d(S)
    Mf = np.asarray(Mf)
    hp = np.full((len(S), Mf.shape[-1]), np.nan + 0j)
    hc = hp.copy()
    m1, m2 = masses(S)
    seq = lal.CreateREAL8Sequence(Mf.shape[-1])
    ap = getattr(ls, approx)
    g = lambda r, n: float(r[COL[n]])
    for i, r in enumerate(S):
        f = (Mf if Mf.ndim == 1 else Mf[i]) / (r[COL["M"]] * GT)
        seq.data = f
        try:
            a, b = ls.SimInspiralChooseFDWaveformSequence(
                g(r, "phic"), float(m1[i]) * MS, float(m2[i]) * MS, g(r, "s1x"), g(r, "s1y"), g(r, "chi1"),
                g(r, "s2x"), g(r, "s2y"), g(r, "chi2"), g(r, "Mfref") / (g(r, "M") * GT),
                g(r, "D") * 1e6 * lal.PC_SI, g(r, "iota"), _dict(ls, lal, r, tidal), ap, seq)
        except Exception:
            continue
        ph = np.exp(-2j * np.pi * f * r[COL["tc"]])
        hp[i] = a.data.data * ph
        hc[i] = b.data.data * ph
    return hp, hc


def tidal_parts(S, Mf):
    """LAL's NRTidalv2 phase, amplitude and Planck taper for each state, [N, NF] each, and the merger frequency [N]."""
    import lal, lalsimulation as ls
    _init()
    n = Mf.shape[-1]
    ph, am, ta = (lal.CreateREAL8Sequence(n) for _ in range(3))
    fs = lal.CreateREAL8Sequence(n)
    m1, m2 = masses(S)
    out = [np.empty((len(S), n)) for _ in range(3)]
    fm = np.empty(len(S))
    for i, r in enumerate(S):
        fs.data = (Mf if Mf.ndim == 1 else Mf[i]) / (r[COL["M"]] * GT)
        a, b = float(m1[i]), float(m2[i])
        l1, l2 = float(r[COL["l1"]]), float(r[COL["l2"]])
        ls.SimNRTunedTidesFDTidalPhaseFrequencySeries(ph, am, ta, fs, a * MS, b * MS, l1, l2,
                                                      float(r[COL["chi1"]]), float(r[COL["chi2"]]),
                                                      ls.NRTidalv2_V)
        for o, x in zip(out, (ph, am, ta)):
            o[i] = x.data
        k = ls.SimNRTunedTidesComputeKappa2T(a * MS, b * MS, l1, l2)
        fm[i] = ls.SimNRTunedTidesMergerFrequency(a + b, k, a / b)
    return out[0], out[1], out[2], fm


def run(job):
    """Entry point of worker processes: (function name, args)."""
    fn, args = job
    return globals()[fn](*args)


class Pool:
    """Spawned workers computing reference waveforms while the main process compiles."""

    def __init__(self, procs=7):
        import concurrent.futures as cf, multiprocessing as mp
        self.n = procs
        self.ex = cf.ProcessPoolExecutor(procs, mp_context=mp.get_context("spawn"))

    def submit(self, fn, S, Mf, *rest, per=400):
        """Split the states; Mf shared [NF] or per state [N, NF]."""
        parts = [(S[i:i + per], Mf if np.ndim(Mf) == 1 else Mf[i:i + per]) for i in range(0, len(S), per)]
        if fn == "fd":
            approx, tidal = rest
            jobs = [(fn, (approx, s, m, tidal)) for s, m in parts]
        else:
            jobs = [(fn, (s, m) + rest) for s, m in parts]
        return [self.ex.submit(run, j) for j in jobs]

    @staticmethod
    def gather(futs):
        res = [f.result() for f in futs]
        return tuple(np.concatenate(x) for x in zip(*res))

    def close(self):
        self.ex.shutdown(wait=False, cancel_futures=True)


def nrt(S, Mf, taper=True):
    """PhenomD with the NRTidalv2 tidal phase, amplitude and taper of LAL, and the spin-induced quadrupole terms of
    LAL's TaylorF2 phasing (the change a deformability makes to a point-particle TaylorF2) and its 3.5PN terms."""
    import lal, lalsimulation as ls
    S = np.atleast_2d(S)
    hp, hc = fd("IMRPhenomD", S, Mf)
    psi, am, ta, fm = tidal_parts(S, Mf)
    # 2PN and 3PN quadrupole terms: TaylorF2 with and without a quadrupole, no deformability, no reference phase
    P = S.copy()
    P[:, COL["Mfref"]] = 0
    P[:, COL["tc"]] = 0
    P[:, COL["l1"]] = P[:, COL["l2"]] = 0
    off = fd("TaylorF2", P, Mf)[0]
    on = np.empty_like(off)
    seq = lal.CreateREAL8Sequence(Mf.shape[-1])
    m1, m2 = masses(S)
    ss35 = np.empty((len(S), 1))
    g = lambda r, n: float(r[COL[n]])
    for i, r in enumerate(P):
        q1 = ls.SimUniversalRelationQuadMonVSlambda2Tidal(float(S[i, COL["l1"]]))
        q2 = ls.SimUniversalRelationQuadMonVSlambda2Tidal(float(S[i, COL["l2"]]))
        d = lal.CreateDict()
        ls.SimInspiralWaveformParamsInsertdQuadMon1(d, q1 - 1)
        ls.SimInspiralWaveformParamsInsertdQuadMon2(d, q2 - 1)
        seq.data = (Mf if Mf.ndim == 1 else Mf[i]) / (g(r, "M") * GT)
        a, _ = ls.SimInspiralChooseFDWaveformSequence(g(r, "phic"), float(m1[i]) * MS, float(m2[i]) * MS, 0, 0,
                                                      g(r, "chi1"), 0, 0, g(r, "chi2"), 0., g(r, "D") * 1e6 * lal.PC_SI,
                                                      g(r, "iota"), d, ls.TaylorF2, seq)
        on[i] = a.data.data
        M = m1[i] + m2[i]
        ss35[i] = sum(ls.SimInspiralGetHOSpinTerms(float(m1[i] / M), float(m2[i] / M), g(r, "chi1"), g(r, "chi2"), q1, q2))
    with np.errstate(all="ignore"):
        quad = np.where(np.abs(off) > 0, on / off, 1)
    x = (np.pi * (Mf if Mf.ndim == 2 else Mf[None]))**(2 / 3.0)
    eta = S[:, [COL["eta"]]]
    M = S[:, [COL["M"]]]
    D = S[:, [COL["D"]]] * 3.085677581491367278913937957796471611e22
    amp0 = 2 * np.sqrt(5 / (64 * np.pi)) * M * 1.476625038050124729627979840144936351e3 * M * GT / D
    ci = np.cos(S[:, [COL["iota"]]])
    h0 = np.abs(hp) / ((1 + ci**2) / 2)
    with np.errstate(all="ignore"):
        fac = 1 + am * amp0 * 2 * np.sqrt(np.pi / 5) / h0
    fac = fac * np.exp(-1j * (psi + 3 / (128 * eta) * ss35 * x)) * quad
    if taper:
        fac = fac * ta
    return hp * fac, hc * fac
