"""Lets the library's statements run on NumPy instead of JAX arrays, a hundred times faster, for exploring their order.

Every module of the library sees stand-ins for jax and jax.numpy while the context is open. Derivatives are central
differences: only equality of two executions of the same code is judged, not the numbers. The code is the library's own."""
import contextlib, sys
import jax, jax.numpy as jnp
import numpy as np


class A(np.ndarray):
    """Like a JAX array, it is never changed in place by x += y."""
    def __iadd__(s, o): return s + o
    def __isub__(s, o): return s - o
    def __imul__(s, o): return s * o
    def __itruediv__(s, o): return s / o
    def __ipow__(s, o): return s ** o


def view(x):
    if isinstance(x, (list, tuple)):
        return type(x)(map(view, x)) if type(x) in (list, tuple) else x
    if isinstance(x, jax.Array):
        x = np.asarray(x)
    return x.view(A) if type(x) is np.ndarray else x


class NumPy:
    """jax.numpy and its parts."""
    def __init__(self, np_, jnp_):
        self._n, self._j = np_, jnp_

    def __getattr__(self, k):
        v = getattr(self._n, k, None)
        if v is None:
            v = getattr(self._j, k)
        if type(v).__name__ == "module":
            v = NumPy(v, getattr(self._j, k))
        elif callable(v) and not isinstance(v, type):
            g = v

            def v(*a, **kw):
                return view(g(*a, **kw))
        setattr(self, k, v)
        return v


def difference(f, argnums=0, has_aux=False, value=True):
    def g(*a, **kw):
        x, o = a[argnums], f(*a, **kw)
        h = 1e-6 * abs(x) + 1e-12

        def at(y):
            r = f(*a[:argnums], y, *a[argnums + 1:], **kw)
            return r[0] if has_aux else r
        d = (at(x + h) - at(x - h)) / (2 * h)
        if value:
            return o, d
        return (d, o[1]) if has_aux else d
    return g


def cond(p, a, b, *x, **kw):
    if kw or not callable(a):
        return jax.lax.cond(p, a, b, *x, **kw)
    return (a if bool(p) else b)(*x)


class Lax:
    cond = staticmethod(cond)
    def __getattr__(self, k): return getattr(jax.lax, k)


class Jax:
    numpy = NumPy(np, jnp)
    lax = Lax()
    jit = staticmethod(lambda f=None, **kw: f if f is not None else (lambda g: g))
    grad = staticmethod(lambda f, argnums=0, has_aux=False: difference(f, argnums, has_aux, False))
    value_and_grad = staticmethod(difference)
    def __getattr__(self, k): return getattr(jax, k)


SUB = [(jnp, Jax.numpy), (jax, Jax()), (jax.lax, Jax.lax), (jax.jit, Jax.jit), (jax.grad, Jax.grad), (jax.value_and_grad, Jax.value_and_grad), (jax.lax.cond, cond)]


@contextlib.contextmanager
def open_(package="ripplegw"):
    saved = []
    for n, mod in list(sys.modules.items()):
        if n != package and not n.startswith(package + "."):
            continue
        for k, v in list(vars(mod).items()):
            w = next((b for a, b in SUB if a is v), v)
            if isinstance(v, jax.Array):
                w = view(v)
            elif w is v and type(v).__name__ == "PjitFunction" and hasattr(v, "__wrapped__"):
                w = v.__wrapped__
            if w is not v:
                saved.append((mod, k, v, w))
                setattr(mod, k, w)
    try:
        yield
    finally:
        for mod, k, v, w in saved:
            if getattr(mod, k, None) is w:
                setattr(mod, k, v)
