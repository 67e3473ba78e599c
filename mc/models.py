"""Calling the models of the code under test on arrays of states."""
import functools
import numpy as np
from .states import COL, COLS, GT, col, masses

ALL = ["D", "XAS", "Pv2", "TF2", "NRT"]
ALIGNED = ["D", "XAS", "TF2", "NRT"]
#: in-band end frequencies (Mf); the tapered tidal model ends at a source-dependent one
CUT = {"D": 0.2, "XAS": 0.3, "Pv2": 0.2, "Pv2m": 0.2, "TF2": np.inf, "TF2t": np.inf}


def function(model):
    """Public generator of a model as (f, theta, f_ref) -> (hp, hc)."""
    if model == "D":
        from ripplegw.waveforms.IMRPhenomD import gen_IMRPhenomD_hphc as g
        return g
    if model == "XAS":
        from ripplegw.waveforms.IMRPhenomXAS import gen_IMRPhenomXAS_hphc as g
        return g
    if model == "Pv2":
        from ripplegw.waveforms.IMRPhenomPv2 import gen_IMRPhenomPv2_hphc as g
        return g
    if model == "Pv2m":
        from ripplegw.waveforms.IMRPhenomPv2 import gen_IMRPhenomPv2 as g
        return g
    if model in ("TF2", "TF2t"):
        from ripplegw.waveforms.TaylorF2 import gen_TaylorF2_hphc as g
        return functools.partial(g, use_lambda_tildes=model == "TF2t")
    if model in ("NRT", "NRTt", "NRTn", "NRTtn"):
        from ripplegw.waveforms.IMRPhenomD_NRTidalv2 import gen_IMRPhenomD_NRTidalv2_hphc as g
        return functools.partial(g, use_lambda_tildes="t" in model[3:], no_taper="n" in model[3:])
    raise KeyError(model)


def single(model):
    """Public single-strain generator (f, theta without inclination, f_ref) -> h0."""
    if model == "D":
        from ripplegw.waveforms.IMRPhenomD import gen_IMRPhenomD as g
        return g
    if model == "XAS":
        from ripplegw.waveforms.IMRPhenomXAS import gen_IMRPhenomXAS as g
        return g
    if model in ("TF2", "TF2t"):
        from ripplegw.waveforms.TaylorF2 import gen_TaylorF2 as g
        return functools.partial(g, use_lambda_tildes=model == "TF2t")
    if model in ("NRT", "NRTt", "NRTn", "NRTtn"):
        from ripplegw.waveforms.IMRPhenomD_NRTidalv2 import gen_IMRPhenomD_NRTidalv2 as g
        return functools.partial(g, use_lambda_tildes="t" in model[3:], no_taper="n" in model[3:])
    raise KeyError(model)


def tildes(S):
    """Effective tidal parameters, from the published formulae."""
    eta, l1, l2 = (col(S, n) for n in ("eta", "l1", "l2"))
    d = np.sqrt(np.maximum(1 - 4 * eta, 0))
    e2, e3 = eta * eta, eta**3
    lt = 8 / 13 * ((1 + 7 * eta - 31 * e2) * (l1 + l2) + d * (1 + 9 * eta - 11 * e2) * (l1 - l2))
    dl = 0.5 * (d * (1 - 13272 / 1319 * eta + 8944 / 1319 * e2) * (l1 + l2)
                + (1 - 15910 / 1319 * eta + 32850 / 1319 * e2 + 3380 / 1319 * e3) * (l1 - l2))
    return lt, dl


def theta(model, S):
    c = lambda n: col(S, n)
    if model == "Pv2m":
        m1, m2 = masses(S)
        head = [m1, m2]
    else:
        head = [c("M") * c("eta")**0.6, c("eta")]
    if model in ("Pv2", "Pv2m"):
        mid = [c("s1x"), c("s1y"), c("chi1"), c("s2x"), c("s2y"), c("chi2")]
    elif model in ("D", "XAS"):
        mid = [c("chi1"), c("chi2")]
    elif "t" in model[3:]:
        mid = [c("chi1"), c("chi2"), *tildes(S)]
    else:
        mid = [c("chi1"), c("chi2"), c("l1"), c("l2")]
    return np.stack(head + mid + [c("D"), c("tc"), c("phic"), c("iota")], -1)


def fref(S):
    return col(S, "Mfref") / (col(S, "M") * GT)


def hertz(S, Mf):
    """Frequencies [N, NF] in Hz of dimensionless ones [NF] or [N, NF]."""
    return np.asarray(Mf) / (col(S, "M") * GT)[:, None]


_cache = {}


def compiled(key, fn):
    """jit(vmap(fn)) over (f, theta, f_ref), returned as a stacked array."""
    if key not in _cache:
        import jax, jax.numpy as jnp
        _cache[key] = jax.jit(jax.vmap(lambda f, th, fr: jnp.stack(fn(f, th, fr))))
    return _cache[key]


def evaluate(model, S, Mf=None, f=None, chunk=1024, dtype=np.float64, fn=None, th=None, fr=None):
    """hp, hc as one array [N, 2, NF], through one compiled function of fixed shape."""
    S = np.atleast_2d(S)
    f = hertz(S, Mf) if f is None else f
    th = theta(model, S) if th is None else th
    fr = fref(S) if fr is None else fr
    n = len(S)
    g = compiled(model if fn is None else fn, fn or function(model))
    out = []

    def one(i):
        sl = slice(i, min(i + chunk, n))
        k = sl.stop - i
        a = [np.asarray(x[sl], dtype) for x in (f, th, fr)]
        if k < chunk:
            a = [np.concatenate([x, np.repeat(x[-1:], chunk - k, 0)]) for x in a]
        h = np.asarray(g(*a))
        if not out:
            out.append(np.empty((n,) + h.shape[1:], complex))
        out[0][sl] = h[:k]

    starts = list(range(0, n, chunk))
    if starts:
        one(starts[0])  # compiles
    if len(starts) > 2:
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(4) as ex:
            list(ex.map(one, starts[1:]))
    else:
        for i in starts[1:]:
            one(i)
    return out[0]
