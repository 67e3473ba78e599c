"""The uniform front end: names, and histories of calls on several instances."""
import itertools
from pathlib import PurePath
import numpy as np
from mc import core, models as m
from mc.states import base, COLS, GT


class Named:
    """Not a name, but prints as one."""
    __name__ = name = "D"

    def __str__(self):
        return "D"

    __repr__ = __str__


def run(ctx):
    core.setup_jax()
    import jax, jax.numpy as jnp
    try:
        explore(ctx)
    except Exception as e:
        if not core.from_repo(e):
            raise
        import traceback
        ctx.fail("exception", "the front end raised: " + traceback.format_exc()[-600:])
    ctx.notes["exhaustive"] = True


def explore(ctx):
    import jax, jax.numpy as jnp
    from ripplegw.FD_waveform import FD_waveform_generator as FD
    from ripplegw.waveforms import IMRPhenomD, IMRPhenomXAS, IMRPhenomPv2, IMRPhenomD_NRTidalv2
    own = {"D": IMRPhenomD.gen_IMRPhenomD_hphc, "XAS": IMRPhenomXAS.gen_IMRPhenomXAS_hphc, "Pv2": IMRPhenomPv2.gen_IMRPhenomPv2,
           "D_NRTidalv2": IMRPhenomD_NRTidalv2.gen_IMRPhenomD_NRTidalv2_hphc}
    tail = [440.0, 0.01, 0.3, 0.7]
    th = {"D": [26.0, 0.24, 0.3, -0.2] + tail, "XAS": [26.0, 0.24, 0.3, -0.2] + tail, "Pv2": [36.0, 29.0, 0.1, 0.2, 0.3, -0.2, 0.1, 0.4] + tail,
          "D_NRTidalv2": [1.2, 0.24, 0.02, -0.01, 400.0, 30.0] + tail}
    th2 = {k: [x * 1.01 for x in v[:1]] + v[1:] for k, v in th.items()}
    grids = [np.linspace(20.0, 900.0, 7), np.linspace(20.0, 900.0, 7)[::2]]
    args = {k: [(grids[0], np.array(th[k]), 20.0), (grids[0], np.array(th2[k]), 25.0), (grids[1], np.array(th[k]), 20.0)] for k in own}
    names = list(own)
    ref = {}
    for k in names:
        for i, a in enumerate(args[k][: 3 if k != "XAS" else 2]):
            ref[k, i] = [np.asarray(x) for x in own[k](*a)]
    count = [0]

    def same(k, i, out, what, want=None):
        want = ref[k, i] if want is None else want
        ctx.add(states=1, transitions=1, validated=1, comparisons=sum(x.size for x in want))
        ok = isinstance(out, (tuple, list)) and len(out) == 2 and all(np.asarray(a).shape == b.shape and np.array_equal(np.asarray(a), b, equal_nan=True) for a, b in zip(out, want))
        if not ok:
            ctx.fail("result:" + k, "front end does not return what the generator of %s returns (%s)" % (k, what))

    # names that exist
    g = FD()
    for (k, i) in ref:
        same(k, i, g.generate_waveform(k, *args[k][i]), "one call")
    # names that do not
    bad = ["", " ", "d", "x", "PV2", "pv2", "xas", "Xas", "D ", " D", "D\n", "D_", "_D", "DD", "IMRPhenomD", "IMRPhenomXAS", "IMRPhenomPv2", "IMRPhenomD_NRTidalv2",
           "D_nrtidalv2", "D_NRTidal", "D_NRTidalv", "D_NRTidalv3", "NRTidalv2", "D-NRTidalv2", "TaylorF2", "TF2", "P", "Pv", "Pv3", "XA", "XASS", "XHM", "XP",
           "None", "D\x00", "generators", "__init__", "\u0414", "D_NRTidalv2 ", None, 0, 1, 1.5, True, False, b"D", ("D",), (), frozenset(["D"]), object(), float("nan"), PurePath("D"), PurePath("Pv2"), Named(), KeyError("XAS")]
    near = set()
    for k in names:
        for i in range(len(k)):
            near |= {k[:i] + k[i + 1:], k[:i] + k[i].swapcase() + k[i + 1:], k[:i] + "_" + k[i:], k[: i + 1]}
    bad += sorted(near - set(names) - set(x for x in bad if isinstance(x, str)))
    calls = [0]
    for b in bad:
        ctx.add(states=1, transitions=1, validated=1, comparisons=1)
        try:
            g.generate_waveform(b, *args["D"][0])
        except ValueError as e:
            if str(b) not in str(e):
                ctx.fail("message", "error for the name %r does not name it: %s" % (b, e))
        except Exception as e:
            ctx.fail("type", "name %r raises %s instead of ValueError" % (b, type(e).__name__))
        else:
            ctx.fail("accepted", "name %r is accepted" % (b,))
    # all histories of calls on two instances
    fast = ["D", "Pv2", "D_NRTidalv2"]
    ops = [(inst, k, i) for inst in (0, 1) for k in (fast if not ctx.quick else fast[:2]) for i in ((0, 1) if not ctx.quick else (0,))] + [(0, "nope", 0), (1, "nope", 0)]
    depth = 2 if ctx.quick else 3
    # calls are replaced by recorders for the longer histories: which generator is reached with which arguments
    for seq in itertools.product(ops, repeat=depth):
        inst = [FD(), FD()]
        for n, k, i in seq:
            step(inst[n], k, i, args, same, ctx, "history %s" % (seq,))
    class Recorder:
        def __init__(self, k):
            self.k = k
        def __call__(self, *a, **kw):
            return (self.k,) + a
    ops = [(inst, k) for inst in (0, 1) for k in names + ["nope", None]]
    for seq in itertools.product(ops, repeat=3 if ctx.quick else 4):
        inst = [FD(), FD()]
        if not isinstance(getattr(inst[0], "generators", None), dict):
            break
        # a caller changes the table of one instance: the other one must not notice
        inst[0].generators = {k: Recorder(k) for k in inst[0].generators}
        for n, k in seq:
            ctx.add(states=1, transitions=1)
            try:
                if n == 0:
                    r = inst[0].generate_waveform(k, 1, 2, 3)
                    if r != (k, 1, 2, 3):
                        ctx.fail("dispatch", "history %s: name %r reached %r" % (seq, k, r))
                elif k not in own:
                    inst[1].generate_waveform(k, 1, 2, 3)
            except ValueError:
                if k in own:
                    ctx.fail("dispatch", "history %s: name %r refused" % (seq, k))
    # altering the table of an instance leaves other and later instances alone
    a, b = FD(), FD()
    if isinstance(getattr(a, "generators", None), dict):
        a.generators.clear()
        a.generators["D"] = Recorder("D")
        for x, what in ((b, "an older instance"), (FD(), "a new instance")):
            for k in fast:
                try:
                    same(k, 0, x.generate_waveform(k, *args[k][0]), what + " after another one was altered")
                except ValueError as e:
                    ctx.fail("shared", "%s refuses %r after another instance was altered" % (what, k))
    # arguments arrive unchanged, whatever their type
    for k in fast:
        for t in (lambda x: jnp.asarray(x), lambda x: np.array(x)):
            f, p, r = args[k][0]
            f, p = t(f), t(p)
            keep = np.array(f), np.array(p)
            out = FD().generate_waveform(k, f, p, r)
            same(k, 0, out, "other array types", [np.asarray(x) for x in own[k](t(f), t(p), r)])
            if not ((np.asarray(f) == keep[0]).all() and (np.asarray(p) == keep[1]).all()):
                ctx.fail("arguments", "front end changes its arguments for " + k)
        same(k, 0, FD().generate_waveform(model_type=k, fs=args[k][0][0], theta_ripple=args[k][0][1], f_ref=args[k][0][2]), "named arguments")
        j = jax.jit(lambda f, p, r: FD().generate_waveform(k, f, p, r))(*args[k][0])
        w = ref[k, 0]
        ctx.add(states=1, validated=1, comparisons=2 * w[0].size)
        if not all(np.allclose(np.asarray(x), y, rtol=1e-7, atol=0) for x, y in zip(j, w)):
            ctx.fail("compiled", "front end inside a compiled function differs for " + k)
    ctx.sample(dict(names=names, refused=len(bad)))


def step(inst, k, i, args, same, ctx, what):
    if k == "nope":
        ctx.add(states=1, transitions=1)
        try:
            inst.generate_waveform("nope", *args["D"][0])
        except ValueError:
            return
        ctx.fail("accepted", "name 'nope' accepted in " + what)
        return
    same(k, i, inst.generate_waveform(k, *args[k][i]), what)
