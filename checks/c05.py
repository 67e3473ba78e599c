"""PhenomD_NRTidalv2 against PhenomD x NRTidalv2 parts of LALSuite, and against LALSuite's own model where it applies."""
import numpy as np
from checks import c04
from mc import core, reflal, refcheck as R
from mc.states import col


def run(ctx):
    pool = reflal.Pool(7)
    parts = [(n, P, g) for n, P, g in c04.spaces(ctx.quick, hi=0.069, lo=1e-4)]
    ctx.add(transitions=sum(p[1][1] for p in parts))
    parts = [(n, P[0][col(P[0], "Mfref") > 0], g) for n, P, g in parts]
    core.setup_jax()

    def tol(S, Mf):
        # the deepest part of the taper multiplies the relative error of its exponent
        return 2e-7 + 2e-12 * R.phase_size(S, Mf)

    def compare(h, ref, S, Mf, floor=1e-6):
        e, den = R.err(h, ref)
        # relative to a fraction of the untapered strain where the taper has removed all of it
        peak = den.max(1, keepdims=True)
        return np.where(den < floor * peak, np.maximum(np.abs(h[:, 0] - ref[:, 0]), np.abs(h[:, 1] - ref[:, 1])) / (floor * peak), e)

    R.explore(ctx, pool, "NRT", parts, lambda S, Mf: pool.submit("nrt", S, Mf), tol, compare)
    # without the taper
    R.explore(ctx, pool, "NRTn", parts[:3] if ctx.quick else parts, lambda S, Mf: pool.submit("nrt", S, Mf, False), tol, compare)
    # LALSuite's own model, without spins
    plain = []
    for n, S, g in parts:
        S = S.copy()
        S[:, [2, 3]] = 0
        plain.append((n + ", no spin", np.unique(S, axis=0), g))
    R.explore(ctx, pool, "NRT", plain, lambda S, Mf: pool.submit("fd", S, Mf, "IMRPhenomD_NRTidalv2", True),
              lambda S, Mf: 2e-5 + 0 * Mf + np.zeros((len(S), 1)),
              lambda h, ref, S, Mf: compare(h, ref, S, Mf, 1e-4))
    ctx.notes["exhaustive"] = True
    pool.close()
