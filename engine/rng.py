"""Contracts on jax.random (active only inside `with symbolic():`).

Keys are opaque pairs of words.  split(key, n)[i] = SPLIT(key, n, i) is treated as an injective constructor (different (key, n, i)
give independent streams); every draw is an uninterpreted function of (key, position):  uniform -> U(key, i) in [0,1),
randint(lo, hi) -> lo + RI(key, i) with 0 <= RI < hi - lo, bernoulli(p) -> U < p, choice(n) -> RI, categorical(logits) -> CAT(key, i, logits).
Nothing else is assumed about the generator.
"""
import contextlib
import numpy as np
import jax
import jax.numpy as jnp
from . import sym, terms as T
from .sym import Unsupported, ufun
from .terms import lift, ONE, ZERO

_orig = {}
LOG = []


def _n2v(n):
    return jnp.asarray(n, dtype=np.int64) if isinstance(n, (int, np.integer)) else jnp.array(n)


def key(name, prefix=(), shape=()):
    """symbolic key array of the given leading shape"""
    return sym.inp(name, tuple(shape) + (2,), np.uint32, prefix=prefix)


def split(key, num=2):
    if isinstance(num, (tuple, list)):
        raise Unsupported("split with a shape")
    T.declare("SPLIT0", int_=True)
    T.declare("SPLIT1", int_=True)
    if not isinstance(num, (int, np.integer)) and not isinstance(num, sym.shape_poly._DimExpr):
        num = int(num)
    n = _n2v(num)
    return jax.vmap(lambda i: jnp.stack([ufun("SPLIT%d" % c, key, n, i, dtype=np.uint32) for c in range(2)]))(jnp.arange(num))


def fold_in(key, data):
    T.declare("FOLD0", int_=True)
    T.declare("FOLD1", int_=True)
    return jnp.stack([ufun("FOLD%d" % c, key, jnp.asarray(data), dtype=np.uint32) for c in range(2)])


def _grid(f, shape):
    """f(position) over an index grid of the given shape (row-major position)"""
    shape = tuple(shape)
    if not shape:
        return f(jnp.asarray(0))

    def go(k, base):
        if k == len(shape):
            return f(base)
        return jax.vmap(lambda i: go(k + 1, base * shape[k] + i if k else i))(jnp.arange(shape[k]))
    return go(0, jnp.asarray(0))


def uniform(key, shape=(), dtype=float, minval=0., maxval=1.):
    T.declare("U", real=True, nonneg=True)
    u = _grid(lambda i: ufun("U", key, i, dtype=np.float64), shape)
    if (minval, maxval) != (0., 1.):
        u = minval + u * (maxval - minval)
    return u


def bernoulli(key, p=0.5, shape=None):
    p = jnp.asarray(p, dtype=np.float64)
    return uniform(key, p.shape if shape is None else shape) < p


def randint(key, shape, minval, maxval, dtype=int):
    def conc(x):
        return isinstance(x, (int, np.integer, float)) or (hasattr(x, "dtype") and not isinstance(x, jax.core.Tracer))
    if not (conc(minval) and conc(maxval)):
        raise Unsupported("randint with symbolic range")
    lo, hi = int(minval), int(maxval)
    nm = "RI%d" % (hi - lo)
    T.declare(nm, int_=True, dom=hi - lo)
    return _grid(lambda i: ufun(nm, key, i, dtype=np.int64), shape) + lo


def choice(key, a, shape=(), replace=True, p=None, axis=0):
    if p is not None or not replace:
        raise Unsupported("choice with weights / without replacement")
    if isinstance(a, (int, np.integer)):
        return randint(key, shape, 0, int(a))
    a = jnp.asarray(a)
    return a[randint(key, shape, 0, a.shape[0])]


def categorical(key, logits, axis=-1, shape=None):
    if axis not in (-1, logits.ndim - 1):
        raise Unsupported("categorical axis")
    n = int(logits.shape[-1])
    nm = "CAT%d" % n
    T.declare(nm, int_=True, dom=n)
    if shape is not None and tuple(shape) != tuple(logits.shape[:-1]):
        if logits.ndim != 1:
            raise Unsupported("categorical with a shape")
        return _grid(lambda i: ufun(nm, key, i, *[logits[k] for k in range(n)], dtype=np.int64), shape)
    if logits.ndim == 1:
        return ufun(nm, key, jnp.asarray(0), *[logits[k] for k in range(n)], dtype=np.int64)
    raise Unsupported("categorical over several rows")


def _real(nm):
    def f(key, *a, shape=None, dtype=float, **k):
        a = list(a)
        pre = ()
        if nm == "TN":
            pre, a = a[:2], a[2:]
        if shape is None:
            shape = a.pop(0) if a else ()
        T.declare(nm, real=True)
        return _grid(lambda i: ufun(nm, key, i, *[jnp.asarray(x, dtype=np.float64) for x in pre], dtype=np.float64), shape)
    return f


def unsupported(name):
    def f(*a, **k):
        raise Unsupported("jax.random." + name)
    return f


@contextlib.contextmanager
def symbolic():
    import jax.random as jr
    new = dict(split=split, fold_in=fold_in, uniform=uniform, bernoulli=bernoulli, randint=randint, choice=choice, categorical=categorical)
    new["normal"], new["truncated_normal"] = _real("NRM"), _real("TN")
    for k in ("permutation", "exponential", "gumbel", "bits"):
        new[k] = unsupported(k)
    old = {k: getattr(jr, k) for k in new}
    LOG.clear()
    try:
        for k, v in new.items():
            setattr(jr, k, v)
        yield
    finally:
        for k, v in old.items():
            setattr(jr, k, v)


# ------------------------------------------------------------------ analysis of key terms
def find_apps(p, names, out=None, seen=None):
    """all applications of the named functions inside a term: list of (name, args)"""
    out = {} if out is None else out
    seen = set() if seen is None else seen

    def atom(a):
        if a.id in seen:
            return
        seen.add(a.id)
        if a.kind == "app":
            if a.data[0] in names:
                out[a.id] = (a.data[0], a.data[1])
            for x in a.data[1]:
                walk(x)
        elif a.kind == "ind":
            if a.data[0] in names:
                out[("i", a.data[0], a.data[1])] = (a.data[0], a.data[1])
            for x in a.data[1]:
                walk(x)
        else:
            visit(a.data)

    def visit(d):
        if isinstance(d, T.Poly):
            walk(d)
        elif isinstance(d, (tuple, list, frozenset)):
            for x in d:
                visit(x)
        elif isinstance(d, T.Atom if hasattr(T, "Atom") else ()):
            atom(d)

    def walk(q):
        for i in q.atoms():
            atom(T._atoms[i])
    walk(lift(p))
    return list(out.values())


def key_path(k):
    """(root term, [(n, i), ...]) of the first word of a key built by splits"""
    path = []
    k = lift(k)
    while True:
        ats = list(k.atoms())
        a = T._atoms[ats[0]] if len(ats) == 1 else None
        if a is None or a.kind != "app" or a.data[0] != "SPLIT0" or not k == lift(a):
            return k, path[::-1]
        w0, w1, n, i = a.data[1]
        path.append((n, i))
        k = w0


def independent(a, b):
    """two keys are independent streams: same root and the paths separate at siblings of one split (no reuse of a key
    that was split, no second split of the same key with another count)"""
    ra, pa = key_path(a)
    rb, pb = key_path(b)
    if not T.is_zero(ra - rb):
        return False
    for (n, i), (m, j) in zip(pa, pb):
        if not T.is_zero(n - m):
            return False
        d = i - j
        if d.is_zero():
            continue
        if d.is_const():
            return True
        e = T.eq0(d)
        if e.is_zero():
            return True
        return False
    return False


def reused(a, b):
    """the same key is consumed twice, or consumed and also split"""
    ra, pa = key_path(a)
    rb, pb = key_path(b)
    if not T.is_zero(ra - rb):
        return False
    for (n, i), (m, j) in zip(pa, pb):
        if not T.is_zero(n - m) or not T.is_zero(i - j):
            return False
    return True
