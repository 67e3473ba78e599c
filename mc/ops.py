"""Public operations of the library as named, repeatable steps of histories (C18) and schedules (C19)."""
import hashlib
import numpy as np

TH = {"D": [26.0, 0.24, 0.3, -0.2], "XAS": [26.0, 0.24, 0.3, -0.2], "Pv2": [26.0, 0.24, 0.1, 0.2, 0.3, -0.2, 0.1, 0.4], "Pv2m": [36.0, 25.0, 0.1, 0.2, 0.3, -0.2, 0.1, 0.4],
      "TF2": [1.2, 0.24, 0.02, -0.01, 400.0, 30.0], "TF2t": [1.2, 0.24, 0.02, -0.01, 400.0, 30.0], "NRT": [1.2, 0.24, 0.02, -0.01, 400.0, 30.0],
      "NRTt": [1.2, 0.24, 0.02, -0.01, 400.0, 30.0], "NRTn": [1.2, 0.24, 0.02, -0.01, 400.0, 30.0]}
TAIL = [440.0, 0.01, 0.3, 0.7]
GRID = np.array([20.0, 63.0, 145.0, 300.0, 620.0, 900.0])


class Buffers:
    """Arrays that a caller reuses for every call: the same object, refilled."""

    def __init__(self):
        self.b = {}

    def __call__(self, tag, x):
        x = np.asarray(x, float)
        k = tag, x.shape
        if k not in self.b:
            self.b[k] = np.empty(x.shape)
        self.b[k][...] = x
        return self.b[k]


def digest(out):
    h = hashlib.blake2b(digest_size=12)

    def add(o):
        if isinstance(o, (tuple, list)):
            h.update(b"(%d" % len(o))
            for x in o:
                add(x)
        elif isinstance(o, (str, bytes)) or o is None:
            h.update(repr(o).encode())
        else:
            a = np.asarray(o)
            h.update(("%s%s" % (a.dtype, a.shape)).encode())
            h.update(np.ascontiguousarray(a).tobytes())
    add(out)
    return h.hexdigest()


def theta(model, **ch):
    t = np.array(TH[model] + TAIL)
    for k, v in ch.items():
        t[int(k[1:])] = v
    return t


def model_variants(model):
    """Arguments that nearly collide: name -> (f, theta, f_ref)."""
    t = theta(model)
    swap = t.copy()
    swap[2], swap[3] = t[3], t[2]
    if model.startswith("Pv2"):
        swap = t.copy()
        swap[2:5], swap[5:8] = t[5:8], t[2:5]
    inner = GRID.copy()
    inner[2], inner[3] = 150.0, 290.0
    ext = t.copy()
    ext[-1], ext[-2] = 0.7 + np.pi / 2, 1.3
    far = t.copy()
    far[-4] = 880.0
    near = t.copy()
    near[0] *= 1 + 1e-9
    other = t.copy()
    other[0] *= 1.3
    other[1] = 0.2
    lam = t.copy()
    if len(TH[model]) == 6:
        lam[4], lam[5] = 0.3, 0.9
    return dict(base=(GRID, t, 20.0), near=(GRID, near, 20.0), fref=(GRID, t, 20.0 + 1e-8), inner=(inner, t, 20.0), swap=(GRID, swap, 20.0),
                far=(GRID, far, 20.0), ext=(GRID, ext, 20.0), other=(GRID, other, 31.0), short=(GRID[:3], t, 20.0), lam=(GRID, lam, 20.0))


def model_ops(model, names):
    from . import models as m
    V = model_variants(model)

    def op(v, how):
        def make(B):
            import jax, jax.numpy as jnp
            fn = m.function(model)
            f, t, r = V[v]
            if how == "reuse":
                return fn, [B("f", f), B("t", t), r], {}
            if how == "dense":
                return fn, [np.geomspace(10.0, 4000.0, 1500), t.copy(), r], {}
            if how == "jnp":
                return fn, [jnp.asarray(f), jnp.asarray(t), r], {}
            if how == "f32":
                return fn, [np.asarray(f, np.float32), np.asarray(t, np.float32), r], {}
            if how == "readonly":
                f, t = f.copy(), t.copy()
                f.flags.writeable = t.flags.writeable = False
                return fn, [f, t, r], {}
            if how == "jit":
                return jax.jit(lambda f, t, r: fn(f, t, r)), [f.copy(), t.copy(), r], {}
            if how == "vmap":
                return jax.vmap(lambda t: fn(f.copy(), t, r)), [np.stack([t, t])], {}
            if how == "grad":
                return jax.grad(lambda t: jnp.abs(fn(f.copy(), t, r)[0]).sum() * 1e20), [jnp.asarray(t)], {}
            if how == "shape":
                return (lambda f, t, r: [str(x) for x in jax.eval_shape(lambda *a: fn(*a), f, t, r)]), [f.copy(), t.copy(), r], {}
            if how == "badtheta":
                return fn, [f.copy(), t[:3].copy(), r], {}
            if how == "badf":
                return fn, ["no frequencies", t.copy(), r], {}
            if how == "badref":
                return fn, [f.copy(), t.copy(), None], {}
            if how == "nan":
                return fn, [f.copy(), t * np.nan, r], {}
            if how == "list":
                return fn, [f.copy(), jnp.array(t.tolist()), float(r)], {}
            raise KeyError(how)
        return make
    return {"%s:%s:%s" % (model, v, how): op(v, how) for v, how in names}


FULL = [("base", "reuse"), ("near", "reuse"), ("fref", "reuse"), ("inner", "reuse"), ("swap", "reuse"), ("far", "reuse"), ("ext", "reuse"), ("other", "reuse"),
        ("short", "jnp"), ("base", "f32"), ("other", "jit"), ("base", "shape"), ("base", "badtheta"), ("base", "nan")]
FEW = [("base", "reuse"), ("inner", "reuse"), ("ext", "reuse"), ("other", "reuse"), ("base", "shape")]


def misc_ops():
    O = {}

    def add(name, get):
        O[name] = get
    CONV = {
        "Mc_eta_to_ms": [[26.0, 0.24], [0.24, 26.0], [26.0, 0.25], [26.0 * (1 + 1e-9), 0.24]], "ms_to_Mc_eta": [[36.0, 29.0], [29.0, 36.0], [30.0, 30.0]],
        "lambdas_to_lambda_tildes": [[400.0, 600.0, 1.6, 1.3], [600.0, 400.0, 1.6, 1.3], [400.0, 600.0, 1.3, 1.6]],
        "lambda_tildes_to_lambdas": [[400.0, 60.0, 1.6, 1.3], [400.0, -60.0, 1.6, 1.3]],
        "lambdas_to_lambda_tildes_from_q": [[400.0, 600.0, 0.8], [400.0, 600.0, 1.25]], "lambda_tildes_to_lambdas_from_q": [[400.0, 60.0, 0.8], [400.0, 60.0, 1.25]],
        "get_chi_eff": [[36.0, 29.0, 0.3, -0.2], [36.0, 29.0, -0.2, 0.3]]}

    def conv(fn, a, how):
        def make(B):
            import jax.numpy as jnp
            import ripplegw as R
            return getattr(R, fn), [B("c%d" % len(a), a) if how == "reuse" else jnp.array(a)], {}
        return make
    for fn, alts in CONV.items():
        for i, a in enumerate(alts):
            for how in (("reuse", "jnp") if i == 0 else ("reuse",)):
                O["%s:%d:%s" % (fn, i, how)] = conv(fn, a, how)

    def simple(f):
        def make(B):
            import ripplegw as R
            return f(R, B)
        return make
    O["f_isco"] = simple(lambda R, B: (R.get_f_isco, [60.0], {}))
    O["chi_eff:fail"] = simple(lambda R, B: (R.get_chi_eff, [None], {}))
    O["Mc_eta:fail"] = simple(lambda R, B: (R.Mc_eta_to_ms, ["x"], {}))

    def noise(fn, f):
        def make(B):
            from ripplegw import noise as N
            return getattr(N, fn), [B("n", f)], {}
        return make
    for fn in ("Sn_LIGOI", "Sn_aLIGO", "Sn_aLIGOZeroDetHighPower", "Sn_ce", "Sn_et", "Sn_O3a", "Sn_O2"):
        O["noise:" + fn] = noise(fn, [5.0, 21.0, 60.0, 151.5, 900.0, 3e4])
    O["noise:Sn_aLIGO:2"] = noise("Sn_aLIGO", [5.0, 21.0, 60.0, 151.6, 900.0, 3e4])
    O["noise:Sn_O2:2"] = noise("Sn_O2", [5.0, 21.0, 60.0, 151.6, 900.0, 3e4])
    made = {}

    def sampler(which, key, n, r1, r2, keep):
        def make(B):
            import jax
            import ripplegw as R
            g = dict(M=R.get_M_eta_sampler, m=R.get_m1_m2_sampler)[which]
            if keep:
                B.b.setdefault(("sampler", which, r1, r2), None)
                if B.b["sampler", which, r1, r2] is None:
                    B.b["sampler", which, r1, r2] = g(r1, r2)
                s = B.b["sampler", which, r1, r2]
            else:
                s = g(r1, r2)
            return s, [jax.random.PRNGKey(key), n], {}
        return make
    for w, r1, r2, r3 in (("M", (5.0, 50.0), (0.1, 0.25), (0.2, 0.25)), ("m", (5.0, 50.0), (1.0, 9.0), (1.0, 3.0))):
        O["sampler:%s:0" % w] = sampler(w, 3, 4, r1, r2, True)
        O["sampler:%s:1" % w] = sampler(w, 4, 4, r1, r2, True)
        O["sampler:%s:2" % w] = sampler(w, 3, 5, r1, r2, True)
        O["sampler:%s:3" % w] = sampler(w, 3, 4, r1, r3, False)

    def match(v):
        def make(B):
            import warnings
            import ripplegw as R
            fs = B("fs", np.arange(4, 10) * 0.5)
            a = B("ma", [1.0, 2.0, 0.5, 0.3, 0.1, 1.0])
            b = B("mb", np.arange(6) + 0.1 * v)
            sn = B("sn", [1.0, 2.0, 1.0, 1.0 + v, 0.5, 1.0])
            A = lambda f, t: f * t[0] + 1
            P = lambda f, t: f * t[1]
            if v >= 6:
                # the same number of frequencies: another start; another spacing
                fs[:] = np.arange(7, 13) * 0.5 if v == 6 else np.arange(4, 10) * 0.25
                if v == 8:
                    return R.get_eff_pads, [fs], {}
                lo, hi = R.get_eff_pads(fs)
                return R.get_match, [fs, lo, hi, lambda f: 1 + f, B("t1", [1.0, 2.0]), B("t2", [1.5, 0.2]), A, P, None, None], {}
            if v == 2:
                return R.get_phase_maximized_inner_product_arr, [0.2, fs, sn, a, b], {}
            if v == 3:
                lo, hi = R.get_eff_pads(fs)
                return R.get_match, [fs, lo, hi, lambda f: 1 + f, B("t1", [1.0, 2.0]), B("t2", [1.5, 0.2]), A, P, None, None], {}
            if v == 4:
                return R.get_phase_maximized_inner_product, [0.1, fs, lambda f: 1 + f, B("t1", [1.0, 2.0]), B("t2", [1.5, 0.2]), A, P, None, None], {}
            if v == 5:
                def run(x):
                    with warnings.catch_warnings(record=True) as w:
                        warnings.simplefilter("always")
                        R.get_eff_pads(x)
                    return [str(q.message) for q in w]
                fs[2] += 0.1
                return run, [fs], {}
            lo, hi = R.get_eff_pads(fs)
            return R.get_match_arr, [lo, hi, sn, a, b], {}
        return make
    for v in range(9):
        O["match:%d" % v] = match(v)

    def sg(v):
        def make(B):
            from ripplegw.waveforms.SineGaussian import gen_SineGaussian_hphc as g
            t = {0: [9.0, 120.0, 1e-21, 0.3, 0.4], 1: [9.0, 120.0, 1e-21, 0.4, 0.3], 2: [9.0, 120.0, 2e-21, 0.3, 0.4]}[v]
            return g, [B("x", np.linspace(-0.05, 0.05, 6)), B("sg", t)], {}
        return make
    for v in range(3):
        O["sg:%d" % v] = sg(v)
    return O


def front_ops():
    """The front end, with one instance kept by the caller and new ones."""
    O = {}

    def op(k, v, keep):
        def make(B):
            from ripplegw.FD_waveform import FD_waveform_generator as FD
            if keep:
                if B.b.get("front") is None:
                    B.b["front"] = FD()
                g = B.b["front"]
            else:
                g = FD()
            f, t, r = model_variants({"D": "D", "Pv2": "Pv2m", "D_NRTidalv2": "NRTt", "XAS": "XAS"}.get(k, "D"))[v]
            return g.generate_waveform, [k, B("f", f), B("t", t), r], {}
        return make
    for k, v, keep in (("D", "base", True), ("D", "swap", True), ("Pv2", "base", True), ("D_NRTidalv2", "base", True), ("D", "base", False), ("Pv2", "base", False), ("IMRPhenomD", "base", True), ("", "base", False)):
        O["front:%s:%s:%s" % (k, v, "kept" if keep else "new")] = op(k, v, keep)
    return O


def others():
    """One or two of every model, in other ways of calling."""
    O = {}
    for k in ("D", "Pv2", "TF2", "TF2t", "NRT", "NRTt", "NRTn"):
        O.update(model_ops(k, [("base", "reuse")]))
    O.update(model_ops("D", [("other", "readonly"), ("base", "badref")]))
    O.update(model_ops("TF2", [("other", "jit"), ("base", "vmap"), ("base", "grad"), ("base", "badf"), ("lam", "reuse"), ("base", "f32")]))
    O.update(model_ops("NRT", [("lam", "reuse")]))
    M = misc_ops()
    for k in ("Mc_eta_to_ms:0:reuse", "lambda_tildes_to_lambdas:0:reuse", "noise:Sn_aLIGO", "sampler:m:0", "match:0", "sg:0"):
        O[k] = M[k]
    return O


def groups(quick=True):
    G = {}
    full = FULL + ([] if quick else [("base", "vmap"), ("base", "grad"), ("base", "jit"), ("other", "jnp"), ("base", "readonly"), ("base", "badref"), ("base", "badf")])
    for k in ("D", "Pv2", "NRT", "TF2"):
        names = full + ([("lam", "reuse"), ("lam", "f32")] if k in ("NRT", "TF2") else [])
        if quick and k != "TF2":
            names = [n for n in names if n not in (("short", "jnp"), ("base", "nan"), ("far", "reuse"))]
        G[k] = model_ops(k, names)
    G["XAS"] = model_ops("XAS", FEW[1:4] if quick else FEW + [("near", "reuse"), ("fref", "reuse"), ("swap", "reuse")])
    G["misc"] = misc_ops()
    if quick:
        for n in ("noise:Sn_ce", "noise:Sn_et", "noise:Sn_aLIGOZeroDetHighPower", "noise:Sn_O3a", "Mc_eta_to_ms:2:reuse", "sampler:m:3", "lambdas_to_lambda_tildes_from_q:0:jnp", "ms_to_Mc_eta:0:jnp"):
            del G["misc"][n]
    G["front"] = front_ops()
    G["others"] = others()
    return G


class ArgumentsChanged(Exception):
    pass


def perform(make, B, poison=True):
    """One step: returns (digest of the result or name of the exception, description of what happened to the arguments)."""
    fn, args, kw = make(B)
    arrays = [a for a in args if isinstance(a, np.ndarray)]
    keep = [a.copy() for a in arrays]
    others = [repr(a) for a in args if isinstance(a, (float, int, str, list, tuple))]
    out = None
    try:
        out = fn(*args, **kw)
        d = digest(out)
    except Exception as e:
        d = "raises " + type(e).__name__
    changed = None
    for a, b in zip(arrays, keep):
        if a.tobytes() != b.tobytes():
            changed = "an array argument was changed from %s to %s" % (b.tolist(), a.tolist())
    if others != [repr(a) for a in args if isinstance(a, (float, int, str, list, tuple))]:
        changed = "an argument was changed"
    if poison:
        # what a caller may do with its own arrays afterwards: overwrite the arguments and the result
        for a in arrays:
            if a.flags.writeable:
                a[...] = np.nan
        for o in out if isinstance(out, (tuple, list)) else [out]:
            if isinstance(o, np.ndarray) and o.flags.writeable:
                try:
                    o[...] = 7
                except Exception:
                    pass
        if isinstance(out, list):
            out.clear()
    return d, changed


def pair_sequence(k, n):
    """De Bruijn sequence: every sequence of n symbols out of k, each once, in one cyclic history."""
    a = [0] * k * n
    seq = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq + seq[: n - 1]


_frozen = {}


def library_state():
    """Digests of everything reachable from the modules of the library: (constants, everything)."""
    import sys, types, zlib
    import jax
    const, rest = {}, hashlib.blake2b(digest_size=12)
    seen = {}

    def leaf(name, v):
        if isinstance(v, (float, np.ndarray, jax.Array)):
            try:
                a = np.asarray(v)
            except Exception:
                return False
            if a.dtype == object:
                return False
            if isinstance(v, jax.Array):    # cannot be changed in place
                if id(v) not in _frozen:
                    _frozen[id(v)] = v, (str(a.dtype), a.shape, zlib.crc32(np.ascontiguousarray(a).tobytes()))
                const[name] = _frozen[id(v)][1]
            else:
                const[name] = (str(a.dtype), a.shape, zlib.crc32(np.ascontiguousarray(a).tobytes()))
            rest.update(repr((name, const[name])).encode())
            return True
        return False

    def visit(name, v, depth):
        if isinstance(v, types.ModuleType) or depth > 6:
            return
        if leaf(name, v):
            return
        if isinstance(v, (int, str, bytes, bool, type(None), complex)):
            rest.update(repr((name, v)).encode())
            return
        if id(v) in seen:
            rest.update(repr((name, "->", seen[id(v)])).encode())
            return
        seen[id(v)] = name
        if isinstance(v, dict):
            for k in list(v):
                visit("%s[%s]" % (name, repr(k)[:60] if not callable(k) else "fn"), v[k], depth + 1)
        elif isinstance(v, (list, tuple)):
            for i, x in enumerate(v):
                visit("%s[%d]" % (name, i), x, depth + 1)
        elif isinstance(v, (set, frozenset)):
            rest.update(repr((name, len(v))).encode())
        elif isinstance(v, type):
            if getattr(v, "__module__", "").startswith("ripplegw"):
                for k, x in list(vars(v).items()):
                    if not k.startswith("__"):
                        visit(name + "." + k, x, depth + 1)
        elif isinstance(v, types.FunctionType):
            if (v.__module__ or "").startswith("ripplegw"):
                visit(name + ".defaults", v.__defaults__, depth + 1)
                visit(name + ".kwdefaults", v.__kwdefaults__, depth + 1)
                visit(name + ".dict", v.__dict__, depth + 1)
                for i, c in enumerate(v.__closure__ or ()):
                    try:
                        visit("%s.cell%d" % (name, i), c.cell_contents, depth + 1)
                    except ValueError:
                        pass
        elif hasattr(v, "cache_info") and callable(v.cache_info):
            try:
                rest.update(repr((name, tuple(v.cache_info()))).encode())
            except Exception:
                pass
        elif (type(v).__module__ or "").startswith("ripplegw"):
            visit(name + ".vars", getattr(v, "__dict__", None), depth + 1)

    for mod in sorted(k for k in sys.modules if k == "ripplegw" or k.startswith("ripplegw.")):
        for k, v in sorted(vars(sys.modules[mod]).items()):
            if not k.startswith("__"):
                visit(mod + "." + k, v, 0)
    visit("jax_enable_x64", bool(jax.config.jax_enable_x64), 0)
    return const, rest.hexdigest()
