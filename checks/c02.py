"""PhenomXAS against LALSuite IMRPhenomXAS."""
import numpy as np

from checks import c01
from mc import core, reflal, refcheck as R


def run(ctx):
    pool = reflal.Pool(7)
    parts = c01.spaces(ctx.quick, 0.29999, (0.1, 0.15, 0.2, 0.25))
    ctx.add(transitions=sum(p[1][1] for p in parts))
    core.setup_jax()
    # rounding only; it is amplified where the damping time gets large (extremal final spin)
    tol = lambda S, Mf: np.where(R.col(S, "chi1") > 0.96, 1e-5, 5e-8)[:, None] + 3e-12 * R.phase_size(S, Mf)
    R.explore(ctx, pool, "XAS", [(n, P[0], g) for n, P, g in parts],
              lambda S, Mf: pool.submit("fd", S, Mf, "IMRPhenomXAS", False), tol)
    ctx.notes["exhaustive"] = True
    pool.close()
