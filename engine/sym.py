"""Symbolic execution of JAX programs.

A JAX `Trace` that sits at the bottom of the trace stack and evaluates every primitive on symbolic
arrays, so that the *real* jVMC functions (including vmap/grad/jit/scan transformations applied to
them by JAX itself) are executed as they are and yield closed-form terms.

A symbolic array is a shape (ints and/or JAX symbolic dimensions) plus a function index -> term.
"""
import math, operator, functools, itertools
import numpy as np
import jax
import jax.numpy as jnp
from jax._src import core
from jax._src import dtypes
import jax.export  # noqa: F401  (initialises the dimension-decision procedure)
from jax._src.export import shape_poly
from . import terms as T
from .terms import Poly, lift, ZERO, ONE

ShapedArray = core.ShapedArray


class Unsupported(Exception):
    """the construct is outside the verifier's reach (=> obligation undecided, never a violation)"""


# ------------------------------------------------------------------ dims
DIMVARS = {}


def dim_poly(d):
    if isinstance(d, (int, np.integer)):
        return lift(int(d))
    if isinstance(d, Poly):
        return d
    if hasattr(d, "_sorted_terms"):
        tot = ZERO
        for t, k in d._sorted_terms:
            p = lift(int(k))
            for f, e in t._factors:
                p = p * _factor_poly(f) ** int(e)
            tot = tot + p
        return tot
    raise Unsupported("dimension %r" % (d,))


def _factor_poly(f):
    if f.var is not None:
        return T.var(f.var, int_=True, nonneg=True, pos=True)
    ops = [dim_poly(o) for o in f.operands]
    if f.operation == f.FLOORDIV:
        return T.floordiv(*ops)
    if f.operation == f.MOD:
        return T.mod(*ops)
    if f.operation == f.MAX:
        return T.ite(T.lt0(ops[0] - ops[1]), ops[1], ops[0])
    if f.operation == f.MIN:
        return T.ite(T.lt0(ops[0] - ops[1]), ops[0], ops[1])
    raise Unsupported("dimension op %s" % f.operation)


def sdims(spec, constraints=()):
    """symbolic dimensions, all >= 1"""
    return shape_poly.symbolic_shape(spec, constraints=constraints)


def is_conc(shape):
    return all(isinstance(d, (int, np.integer)) for d in shape)


# ------------------------------------------------------------------ arrays
class SymArr:
    __slots__ = ("shape", "dtype", "f", "memo")

    def __init__(self, shape, dtype, f):
        self.shape = tuple(shape)
        self.dtype = np.dtype(dtype) if not jax.dtypes.issubdtype(dtype, jax.dtypes.extended) else dtype
        self.f = f
        self.memo = {}

    def at(self, *idx):
        idx = tuple(lift(i) for i in idx)
        r = self.memo.get(idx)
        if r is None:
            r = self.f(*idx)
            assert isinstance(r, Poly), (r, self.f)
            self.memo[idx] = r
        return r

    @property
    def dims(self):
        return tuple(dim_poly(d) for d in self.shape)

    def all(self):
        """iterate all entries of a concrete-shape array"""
        for idx in np.ndindex(*[int(d) for d in self.shape]):
            yield idx, self.at(*idx)


def const_arr(v):
    v = np.asarray(v)

    flat = {}

    def f(*idx):
        if all(i.is_int_const() for i in idx):
            return np_term(v[tuple(i.as_int() for i in idx)])
        return table_lookup(v, idx)
    return SymArr(v.shape, v.dtype, f)


def np_term(x):
    if isinstance(x, np.ndarray):
        x = x.item()
    if isinstance(x, (np.bool_, bool)):
        return ONE if x else ZERO
    return lift(x)


def table_lookup(v, idx):
    """constant table at symbolic index: Σ_k [idx==k] v[k]"""
    if v.size and np.all(v == v.flat[0]):
        return np_term(v.flat[0])
    k = next(j for j, i in enumerate(idx) if not i.is_int_const())
    n = v.shape[k]
    if n > 64:
        raise Unsupported("symbolic index into large constant table")
    out = ZERO
    for j in range(n):
        g = T.eq0(idx[k] - j)
        if g.is_zero():
            continue
        sub = idx[:k] + (lift(j),) + idx[k + 1:]
        val = table_lookup(v, sub) if not all(i.is_int_const() for i in sub) else np_term(v[tuple(i.as_int() for i in sub)])
        out = out + g * val
    return out


# ------------------------------------------------------------------ tracer
class SymTracer(core.Tracer):
    __slots__ = ("arr", "const", "_aval", "tag")

    def __init__(self, trace, arr, const=None, aval=None):
        self._trace = trace
        self.arr = arr
        self.const = const
        self._aval = aval
        self.tag = None

    @property
    def aval(self):
        if self._aval is None:
            if self.arr is not None:
                self._aval = ShapedArray(self.arr.shape, self.arr.dtype)
            else:
                self._aval = core.raise_to_shaped(core.get_aval(self.const))
        return self._aval

    def full_lower(self):
        if self.const is not None:
            return self.const
        return self

    def _assert_live(self):
        pass

    # host interaction
    def block_until_ready(self):
        return self

    def copy_to_host_async(self):
        return None

    def sym(self):
        return get_arr(self)

    def term(self, *idx):
        return get_arr(self).at(*idx)

    def _scalar(self):
        if any(not (isinstance(d, int) and d == 1) for d in self.shape):
            raise TypeError("only size-1 arrays can be converted")
        return get_arr(self).at(*[0] * self.ndim)

    def __bool__(self):
        t = self._scalar()
        if self.dtype != np.bool_:
            t = ONE - T.eq0(t)
        return PATH.decide(t)

    def __index__(self):
        return PATH.concretize(self._scalar())

    def __int__(self):
        return PATH.concretize(self._scalar())

    def __float__(self):
        t = self._scalar()
        if t.is_const() and t.real:
            return float(t.const()[0])
        raise Unsupported("float() of a symbolic value")

    def __complex__(self):
        t = self._scalar()
        if t.is_const():
            return complex(float(t.const()[0]), float(t.const()[1]))
        raise Unsupported("complex() of a symbolic value")

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]].item()
        t = self._scalar()
        if t.is_const():
            if np.issubdtype(self.dtype, np.integer):
                return t.as_int()
            if np.issubdtype(self.dtype, np.floating):
                return float(t.const()[0])
        return self.reshape(())

    def __hash__(self):
        return id(self)

    def __array_function__(self, func, types_, args, kwargs):
        return np_dispatch(func, args, kwargs)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        if method != "__call__":
            raise Unsupported("ufunc method " + method)
        out = kwargs.pop("out", None)
        f = getattr(jnp, ufunc.__name__, None)
        if f is None:
            raise Unsupported("numpy ufunc " + ufunc.__name__)
        r = f(*inputs, **kwargs)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if isinstance(o, SymTracer):
                overwrite(o, r)
                return o
            raise Unsupported("ufunc out=")
        return r

    # in-place mutation of host arrays (numpy semantics on np-created symbolic arrays)
    def __setitem__(self, idx, val):
        if self.tag != "np":
            raise TypeError("JAX arrays are immutable")
        overwrite(self, jnp.asarray(self_copy(self)).at[idx].set(val))

    def __iadd__(self, o):
        return self + o

    def fill(self, v):
        if self.tag != "np":
            raise TypeError("JAX arrays are immutable")
        overwrite(self, jnp.full(self.shape, v, dtype=self.dtype))

    def copy(self):
        return self_copy(self)

    def tolist(self):
        return [self[i].tolist() if self.ndim > 1 else self[i] for i in range(len(self))]

    @property
    def nbytes(self):
        return self.size * self.dtype.itemsize


def self_copy(t):
    return SymTracer(t._trace, t.arr, t.const, t._aval)


def overwrite(dst, src):
    """dst (host array tracer) takes the value of src."""
    if isinstance(src, SymTracer):
        dst.arr, dst.const = src.arr, src.const
    else:
        dst.arr, dst.const = const_arr(np.asarray(src)), None
    if dst.arr is None and dst.const is not None:
        dst.arr, dst.const = const_arr(np.asarray(dst.const)), None
    dst._aval = None


def np_dispatch(func, args, kwargs):
    name = func.__name__
    if name == "shape":
        return tuple(args[0].shape)
    if name == "ndim":
        return args[0].ndim
    if name == "size" and len(args) == 1:
        return args[0].size
    if name in ("result_type", "can_cast"):
        return func(*[getattr(a, "dtype", a) for a in args], **kwargs)
    if name == "iscomplexobj":
        return bool(np.issubdtype(args[0].dtype, np.complexfloating))
    if name == "isrealobj":
        return not np.issubdtype(args[0].dtype, np.complexfloating)
    if name in ("empty_like", "zeros_like", "ones_like"):
        a = args[0]
        dt = kwargs.get("dtype") or (args[1] if len(args) > 1 else None) or a.dtype
        if name == "empty_like":
            r = undefined(a.shape, dt)
        else:
            r = jnp.full(kwargs.get("shape", a.shape), 0 if name == "zeros_like" else 1, dtype=dt)
        return mark_np(r)
    f = getattr(jnp, name, None)
    if f is None and func.__module__ == "numpy.linalg":
        f = getattr(jnp.linalg, name, None)
    if func.__module__ == "numpy.linalg":
        f = getattr(jnp.linalg, name)
    if f is None:
        raise Unsupported("numpy function " + name)
    return mark_np(f(*args, **kwargs))


def mark_np(r):
    if isinstance(r, SymTracer):
        r = self_copy(r)
        r.tag = "np"
    elif isinstance(r, (list, tuple)):
        return type(r)(mark_np(x) for x in r)
    return r


_undef = itertools.count()


def undefined(shape, dtype):
    nm = "undef%d" % next(_undef)
    T.declare(nm, real=not np.issubdtype(dtype, np.complexfloating), int_=np.issubdtype(dtype, np.integer))
    return array(SymArr(shape, dtype, lambda *i: T.app(nm, *i)))


def get_arr(x):
    if isinstance(x, SymTracer):
        if x.arr is None:
            x.arr = const_arr(np.asarray(x.const))
        return x.arr
    if isinstance(x, SymArr):
        return x
    return const_arr(np.asarray(x))


class SymTrace(core.Trace):
    def pure(self, val):
        if isinstance(val, SymTracer):
            return val
        return SymTracer(self, None, const=val)

    lift = pure

    def sublift(self, tracer):
        return SymTracer(self, tracer.arr, tracer.const, tracer._aval)

    def process_primitive(self, prim, tracers, params):
        return eval_prim(self, prim, tracers, params)

    def process_call(self, prim, f, tracers, params):
        return f.call_wrapped(*tracers)

    def process_custom_jvp_call(self, prim, fun, jvp, tracers, *, symbolic_zeros):
        return fun.call_wrapped(*tracers)

    def process_custom_vjp_call(self, prim, fun, fwd, bwd, tracers, out_trees, symbolic_zeros):
        return fun.call_wrapped(*tracers)

    def process_custom_transpose(self, prim, call, tracers, **params):
        return call.call_wrapped(*tracers)


_main = [None]
EXACT = [False]


class session:
    """with session(): JAX operations are evaluated symbolically."""

    def __init__(self, exact=False):
        self.exact = exact

    def __enter__(self):
        self.cm = core.new_main(SymTrace, dynamic=True)
        self.old = _main[0]
        _main[0] = self.cm.__enter__()
        self.olde = EXACT[0]
        EXACT[0] = self.exact
        return self

    def __exit__(self, *e):
        _main[0] = self.old
        EXACT[0] = self.olde
        return self.cm.__exit__(*e)


def cur_trace():
    return SymTrace(_main[0], core.cur_sublevel())


def array(arr):
    return SymTracer(cur_trace(), arr)


def inp(name, shape, dtype=np.float64, prefix=(), **decl):
    """symbolic input array: uninterpreted function of (prefix indices +) its indices."""
    dt = np.dtype(dtype)
    d = dict(real=not np.issubdtype(dt, np.complexfloating), int_=np.issubdtype(dt, np.integer))
    d.update(decl)
    T.declare(name, **d)
    prefix = tuple(lift(p) for p in prefix)
    return array(SymArr(shape, dt, lambda *i: T.app(name, *prefix, *i)))


def from_fun(shape, dtype, f):
    return array(SymArr(shape, dtype, f))


# ------------------------------------------------------------------ path exploration
class Path:
    """decisions of host control flow on symbolic values (re-execution based)."""

    def __init__(self):
        self.reset([])
        self.enabled = True
        self.exploring = 0       # inside explore(): the contract enumerates the paths itself

    def reset(self, prefix):
        self.prefix = list(prefix)
        self.trail = []          # [(kind, chosen, n_alternatives)]
        self.cond = []           # list of Poly (0/1 valued) that hold on this path
        self.fixed = {}          # atom id -> Poly

    def choose(self, alts):
        """alts: number of alternatives; returns the index for this run."""
        k = len(self.trail)
        c = self.prefix[k] if k < len(self.prefix) else 0
        self.trail.append((c, alts))
        return c

    def norm(self, t):
        return replace_atoms(t, self.fixed) if self.fixed else t

    def decide(self, t):
        t = self.norm(t)
        if t == ONE:
            return True
        if t.is_zero():
            return False
        if not self.enabled:
            raise Unsupported("host branch on symbolic condition")
        from . import logic
        poss = [v for v in (True, False) if logic.feasible(self.cond + [t if v else ONE - t])]
        if len(poss) == 1:
            self._assume(t if poss[0] else ONE - t)
            return poss[0]
        v = poss[self.choose(2)]
        self._assume(t if v else ONE - t)
        return v

    def _assume(self, t):
        self.cond.append(t)
        if len(t.d) == 1:
            (m, c), = t.d.items()
            if c == (1, 0):
                for i, e in m:
                    if T._atoms[i].idem:
                        self.fixed[i] = ONE
        n = ONE - t
        if len(n.d) == 1:
            (m, c), = n.d.items()
            if c == (1, 0) and len(m) == 1 and T._atoms[m[0][0]].idem:
                self.fixed[m[0][0]] = ZERO

    def concretize(self, t):
        t = self.norm(t)
        if t.is_int_const():
            return t.as_int()
        # finite set of possible values
        groups = T.fin_vars([t])
        if groups is not None:
            n = 1
            for d in groups.values():
                n *= d
            if n <= 4096:
                keys = list(groups)
                vals = set()
                for combo in itertools.product(*[range(groups[k]) for k in keys]):
                    vals.add(T.assign_poly(t, dict(zip(keys, combo))))
                vals = sorted(vals)
                from . import logic
                vals = [v for v in vals if logic.feasible(self.cond + [T.eq0(t - v)])]
                if not vals:
                    raise Infeasible()
                v = vals[self.choose(len(vals))] if len(vals) > 1 else vals[0]
                self._assume(T.eq0(t - v))
                return int(v)
        raise Unsupported("host integer conversion of symbolic value %s" % T.show(t)[:200])


class Infeasible(Exception):
    pass


PATH = Path()


def explore(fn, max_paths=256):
    """run fn() on every feasible path; yields (result, path conditions)."""
    outer = (PATH.prefix, PATH.trail, PATH.cond, PATH.fixed)
    PATH.exploring += 1
    try:
        return _explore(fn, max_paths, outer)
    finally:
        PATH.exploring -= 1
        PATH.prefix, PATH.trail, PATH.cond, PATH.fixed = outer


def _explore(fn, max_paths, outer):
    out = []
    prefix = []
    while True:
        PATH.reset(prefix)
        PATH.cond, PATH.fixed = list(outer[2]), dict(outer[3])
        try:
            r = fn()
            out.append((r, list(PATH.cond), dict(PATH.fixed)))
        except Infeasible:
            pass
        trail = PATH.trail
        # next path
        k = len(trail) - 1
        while k >= 0 and trail[k][0] + 1 >= trail[k][1]:
            k -= 1
        if k < 0:
            break
        prefix = [c for c, n in trail[:k]] + [trail[k][0] + 1]
        if len(out) > max_paths:
            raise Unsupported("too many paths")
    return out


def replace_atoms(p, fixed):
    """replace (boolean) atoms by constants everywhere at top level of the polynomial and inside."""
    if not fixed:
        return p
    memo = {}

    def rp(p):
        out = ZERO
        for m, c in p.d.items():
            t = Poly({(): c})
            for i, e in m:
                t = t * T.powatom(ra(i), e)
                if t.is_zero():
                    break
            out = out + t
        return out

    def ra(i):
        if i in fixed:
            return fixed[i]
        if i in memo:
            return memo[i]
        a = T._atoms[i]
        r = lift(a)
        if a.kind == "app":
            r = T.rebuild_app(a.data[0], [rp(x) for x in a.data[1]])
        elif a.kind == "ind":
            r = T.rebuild_ind(a.data[0], [rp(x) for x in a.data[1]], a.data[2])
        elif a.kind == "exp":
            r = T.exp(rp(a.data))
        elif a.kind == "log":
            r = T.log(rp(a.data))
        elif a.kind == "pbase":
            r = T._PB(rp(a.data))
        elif a.kind == "conj":
            r = T.conj(ra(a.data.id))
        elif a.kind == "cmp":
            x = rp(a.data[1])
            if x != a.data[1]:
                r = T.lt0(x) if a.data[0] == "lt" else T.eq0(x)
        elif a.kind == "sum":
            vs, b = T.open_sum(a)
            r = T.mk_sum([(v, rp(n)) for v, n in vs], rp(b))
        elif a.kind == "fdiv":
            r = T.floordiv(rp(a.data[0]), rp(a.data[1]))
        memo[i] = r
        return r
    return rp(p)


# ------------------------------------------------------------------ primitive evaluation
RULES = {}


def rule(*names):
    def deco(f):
        for n in names:
            RULES[n] = f
        return f
    return deco


STATS = {"prims": 0}
TRUSTED = set()


def params_concrete(params):
    def chk(v):
        if hasattr(v, "_sorted_terms"):
            return False
        if isinstance(v, (tuple, list)):
            return all(chk(x) for x in v)
        if isinstance(v, core.ClosedJaxpr):
            return jaxpr_concrete(v.jaxpr)
        if isinstance(v, core.Jaxpr):
            return jaxpr_concrete(v)
        return True
    return all(chk(v) for v in params.values())


_jc = {}


def jaxpr_concrete(j):
    k = id(j)
    if k in _jc:
        return _jc[k][1]
    ok = True
    for v in itertools.chain(j.invars, j.outvars, j.constvars):
        if not is_conc(getattr(v.aval, "shape", ())):
            ok = False
    if ok:
        for e in j.eqns:
            if not params_concrete(e.params) or not all(is_conc(getattr(v.aval, "shape", ())) for v in e.outvars):
                ok = False
                break
    _jc[k] = (j, ok)
    return ok


def eval_prim(trace, prim, tracers, params):
    STATS["prims"] += 1
    name = prim.name
    consts = [t.const for t in tracers]
    if all(c is not None for c in consts) and params_concrete(params) and name not in FORCE_SYM:
        if not EXACT[0] or not _floaty(prim, tracers, params):
            with core.eval_context():
                return prim.bind(*consts, **params)
    r = RULES.get(name)
    if r is None:
        raise Unsupported("primitive " + name)
    if name in CALLS:
        outs = r(trace, tracers, params, prim)
        return outs
    avals = [t.aval for t in tracers]
    out_aval, _ = prim.abstract_eval(*avals, **params)
    arrs = [get_arr(t) for t in tracers]
    res = r(arrs, params, out_aval)
    if prim.multiple_results:
        return [SymTracer(trace, a, aval=av if is_shaped(av) else None) for a, av in zip(res, out_aval)]
    return SymTracer(trace, res, aval=out_aval)


def is_shaped(av):
    return isinstance(av, ShapedArray)


CALLS = set()
FORCE_SYM = set()


def _floaty(prim, tracers, params):
    if prim.name in ("pjit", "custom_jvp_call", "custom_vjp_call", "scan", "while", "cond"):
        return True
    for t in tracers:
        dt = t.aval.dtype
        if np.issubdtype(dt, np.inexact) if not jax.dtypes.issubdtype(dt, jax.dtypes.extended) else False:
            return True
    if prim.name in ("convert_element_type",) and np.issubdtype(params.get("new_dtype"), np.inexact):
        return True
    return False


def call_rule(*names):
    def deco(f):
        for n in names:
            RULES[n] = f
            CALLS.add(n)
        return f
    return deco


def eval_closed(trace, jaxpr, consts, args):
    """evaluate a jaxpr with our tracers as environment."""
    env = {}

    def read(v):
        if isinstance(v, core.Literal):
            return trace.pure(v.val)
        return env[v]
    for v, c in zip(jaxpr.constvars, consts):
        env[v] = trace.full_raise(c)
    for v, c in zip(jaxpr.invars, args):
        env[v] = c if isinstance(c, SymTracer) else trace.pure(c)
    for eqn in jaxpr.eqns:
        ins = [read(v) for v in eqn.invars]
        nm = eqn.primitive.name
        if nm in ("custom_jvp_call", "custom_vjp_call", "custom_vjp_call_jaxpr", "custom_lin"):
            cj = eqn.params.get("call_jaxpr") or eqn.params.get("fun_jaxpr")
            ans = eval_closed(trace, cj.jaxpr, cj.consts, ins)
        elif nm in ("closed_call", "core_call", "remat", "checkpoint", "remat2"):
            cj = eqn.params.get("call_jaxpr") or eqn.params.get("jaxpr")
            if isinstance(cj, core.ClosedJaxpr):
                ans = eval_closed(trace, cj.jaxpr, cj.consts, ins)
            else:
                ans = eval_closed(trace, cj, (), ins)
        else:
            ans = eval_prim(trace, eqn.primitive, ins, eqn.params)
        if not eqn.primitive.multiple_results:
            ans = [ans]
        for v, a in zip(eqn.outvars, ans):
            env[v] = a if isinstance(a, SymTracer) else trace.pure(a)
    return [read(v) for v in jaxpr.outvars]


PJIT_HOOKS = {}


@call_rule("pjit")
def _pjit(trace, tracers, params, prim):
    cj = params["jaxpr"]
    h = PJIT_HOOKS.get(params.get("name"))
    if h is not None:
        r = h(trace, tracers, params)
        if r is not None:
            return r
    return eval_closed(trace, cj.jaxpr, cj.consts, tracers)


@call_rule("custom_jvp_call", "custom_vjp_call")
def _cj(trace, tracers, params, prim):
    cj = params["call_jaxpr"]
    return eval_closed(trace, cj.jaxpr, cj.consts, tracers)


@call_rule("closed_call", "remat", "checkpoint", "remat2", "core_call")
def _cc(trace, tracers, params, prim):
    cj = params.get("call_jaxpr") or params.get("jaxpr")
    if isinstance(cj, core.ClosedJaxpr):
        return eval_closed(trace, cj.jaxpr, cj.consts, tracers)
    return eval_closed(trace, cj, (), tracers)


def T_of(trace, arr):
    return SymTracer(trace, arr)


# ---------------- elementwise
def ew(fn, need_same=True):
    def r(arrs, params, aval):
        def f(*idx):
            return fn(*[bget(a, idx) for a in arrs], **params) if params_used else fn(*[bget(a, idx) for a in arrs])
        params_used = False
        return SymArr(aval.shape, aval.dtype, f)
    return r


def bget(a, idx):
    if not a.shape:
        return a.at()
    # batching rules may leave size-1 axes for the primitive to broadcast
    return a.at(*[ZERO if isinstance(d, int) and d == 1 else i for i, d in zip(idx, a.shape)])


def _bool_or_int(fb, fi):
    def r(arrs, params, aval):
        isb = arrs[0].dtype == np.bool_
        return SymArr(aval.shape, aval.dtype, lambda *i: (fb if isb else fi)(*[bget(a, i) for a in arrs]))
    return r


def int_tab(f, alt=None):
    def g(*ts):
        if all(t.is_int_const() for t in ts):
            return lift(f(*[t.as_int() for t in ts]))
        r = T.tabulate(lambda *v: f(*[int(x) for x in v]), list(ts))
        if r is None and alt is not None:
            r = alt(*ts)
        if r is None:
            raise Unsupported("bit operation on unbounded symbolic integers")
        return r
    return g


def _shr(a, b):
    return T.floordiv(a, lift(2 ** b.as_int())) if b.is_int_const() and 0 <= b.as_int() < 64 else None


def _and(a, b):
    """x & (2^m - 1) = x mod 2^m (two's complement)"""
    for x, m in ((a, b), (b, a)):
        if m.is_int_const() and m.as_int() > 0 and (m.as_int() + 1) & m.as_int() == 0:
            return T.mod(x, lift(m.as_int() + 1))
    return None


for n, f in {
    "add": lambda a, b: a + b, "add_any": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b,
    "neg": lambda a: -a, "exp": T.exp, "log": T.log, "log1p": lambda a: T.log(ONE + a), "expm1": lambda a: T.exp(a) - 1,
    "sin": T.sin, "cos": T.cos, "tan": lambda a: T.sin(a) / T.cos(a), "sqrt": T.sqrt, "rsqrt": lambda a: ONE / T.sqrt(a), "square": lambda a: a * a,
    "real": T.re, "imag": T.im, "conj": T.conj, "complex": lambda a, b: a + T.IMAG * b, "abs": T.pabs,
    "cosh": lambda a: (T.exp(a) + T.exp(-a)) * T.Q(1, 2), "sinh": lambda a: (T.exp(a) - T.exp(-a)) * T.Q(1, 2),
    "tanh": lambda a: (T.exp(a) - T.exp(-a)) / (T.exp(a) + T.exp(-a)),
    "logistic": lambda a: ONE / (ONE + T.exp(-a)),
    "lt": lambda a, b: T.lt0(a - b), "gt": lambda a, b: T.lt0(b - a), "le": lambda a, b: ONE - T.lt0(b - a), "ge": lambda a, b: ONE - T.lt0(a - b),
    "lt_to": lambda a, b: T.lt0(a - b), "le_to": lambda a, b: ONE - T.lt0(b - a),
    "eq": lambda a, b: T.eq0(a - b), "ne": lambda a, b: ONE - T.eq0(a - b),
    "max": lambda a, b: T.ite(T.lt0(a - b), b, a), "min": lambda a, b: T.ite(T.lt0(b - a), b, a),
    "copy": lambda a: a, "copy_p": lambda a: a, "stop_gradient": lambda a: a, "optimization_barrier": lambda a: a,
    "is_finite": lambda a: ONE,
    "sign": lambda a: (ONE - T.eq0(a)) * (ONE - 2 * T.lt0(a)),
    "clamp": lambda lo, x, hi: clampt(lo, x, hi),
    "shift_right_logical": int_tab(lambda a, b: (a >> b) if b < 64 else 0), "shift_right_arithmetic": int_tab(lambda a, b: (a >> b) if b < 64 else 0, _shr),
    "shift_left": int_tab(lambda a, b: a << b), "population_count": int_tab(lambda a: bin(a).count("1")),
    "nextafter": lambda a, b: a,
    "atan2": lambda a, b: T.app("atan2", a, b),
}.items():
    RULES[n] = ew(f)


def clampt(lo, x, hi):
    y = T.ite(T.lt0(x - lo), lo, x)
    return T.ite(T.lt0(hi - y), hi, y)


T.declare("atan2", real=True, eval=math.atan2)
RULES["and"] = _bool_or_int(lambda a, b: a * b, int_tab(operator.and_, _and))
RULES["or"] = _bool_or_int(lambda a, b: a + b - a * b, int_tab(operator.or_))
RULES["xor"] = _bool_or_int(lambda a, b: a + b - 2 * a * b, int_tab(operator.xor))
RULES["not"] = _bool_or_int(lambda a: ONE - a, int_tab(operator.invert))


@rule("copy")
def _copy(arrs, p, aval):
    return arrs[0]


@rule("optimization_barrier")
def _ob(arrs, p, aval):
    return arrs


@rule("div")
def _div(arrs, p, aval):
    if np.issubdtype(aval.dtype, np.integer):
        def g(a, b):   # C-style truncation
            q_ = T.floordiv(a, b)
            # trunc = floor + [a%b != 0][sign differ]
            s = T.lt0(a) + T.lt0(b) - 2 * T.lt0(a) * T.lt0(b)
            if s.is_zero():
                return q_
            return q_ + s * (ONE - T.eq0(a - b * q_))
        return SymArr(aval.shape, aval.dtype, lambda *i: g(bget(arrs[0], i), bget(arrs[1], i)))
    return SymArr(aval.shape, aval.dtype, lambda *i: bget(arrs[0], i) / bget(arrs[1], i))


@rule("rem")
def _rem(arrs, p, aval):
    if not np.issubdtype(aval.dtype, np.integer):
        raise Unsupported("float rem")

    def g(a, b):
        q_ = T.floordiv(a, b)
        m = a - b * q_
        s = T.lt0(a) + T.lt0(b) - 2 * T.lt0(a) * T.lt0(b)
        if s.is_zero():
            return m
        return m - s * (ONE - T.eq0(m)) * b
    return SymArr(aval.shape, aval.dtype, lambda *i: g(bget(arrs[0], i), bget(arrs[1], i)))


@rule("floor", "ceil", "round")
def _floor(arrs, p, aval):
    raise Unsupported("float rounding")


@rule("integer_pow")
def _ipow(arrs, p, aval):
    y = p["y"]
    return SymArr(aval.shape, aval.dtype, lambda *i: arrs[0].at(*i) ** y)


@rule("pow")
def _pow(arrs, p, aval):
    def g(a, b):
        if b.is_const() and b.real:
            return T.ppow(a, b.const()[0])
        if a.is_int_const() and b.integer:
            tab = T.tabulate(lambda v: T.Q(a.as_int()) ** int(v), [b])
            if tab is not None:
                return tab
        if T.is_pos(a):
            return T.exp(b * T.log(a))
        raise Unsupported("pow with symbolic exponent")
    return SymArr(aval.shape, aval.dtype, lambda *i: g(bget(arrs[0], i), bget(arrs[1], i)))


@rule("convert_element_type")
def _cet(arrs, p, aval):
    a = arrs[0]
    src, dst = a.dtype, np.dtype(aval.dtype)
    if dst == np.bool_ and src != np.bool_:
        return SymArr(aval.shape, dst, lambda *i: ONE - T.eq0(a.at(*i)))
    if np.issubdtype(dst, np.integer) and np.issubdtype(src, np.floating):
        def g(t):
            if t.integer:
                return t
            r = T.tabulate(lambda v: math.trunc(v), [t])
            if r is None:
                raise Unsupported("float->int conversion")
            return r
        return SymArr(aval.shape, dst, lambda *i: g(a.at(*i)))
    if np.issubdtype(dst, np.floating) and np.issubdtype(src, np.complexfloating):
        return SymArr(aval.shape, dst, lambda *i: T.re(a.at(*i)))
    return SymArr(aval.shape, dst, a.f if False else (lambda *i: a.at(*i)))


@rule("select_n")
def _sel(arrs, p, aval):
    w, *cs = arrs

    def f(*i):
        k = bget(w, i)
        if w.dtype == np.bool_:
            if k == ONE:
                return cs[1].at(*i)
            if k.is_zero():
                return cs[0].at(*i)
            return T.ite(k, cs[1].at(*i), cs[0].at(*i))
        out = ZERO
        for j, c in enumerate(cs):
            g = T.eq0(k - j)
            if not g.is_zero():
                out = out + g * c.at(*i)
        return out
    return SymArr(aval.shape, aval.dtype, f)


# ---------------- structural
@rule("broadcast_in_dim")
def _bid(arrs, p, aval):
    a = arrs[0]
    bd = p["broadcast_dimensions"]
    ones = [isinstance(d, int) and d == 1 for d in a.shape]
    return SymArr(aval.shape, aval.dtype, lambda *i: a.at(*[ZERO if o else i[k] for k, o in zip(bd, ones)]))


@rule("transpose")
def _tr(arrs, p, aval):
    perm = p["permutation"]
    a = arrs[0]

    def f(*i):
        src = [None] * len(perm)
        for out_ax, in_ax in enumerate(perm):
            src[in_ax] = i[out_ax]
        return a.at(*src)
    return SymArr(aval.shape, aval.dtype, f)


@rule("squeeze")
def _sq(arrs, p, aval):
    a = arrs[0]
    dims = set(d % len(a.shape) for d in p["dimensions"])

    def f(*i):
        it = iter(i)
        return a.at(*[ZERO if k in dims else next(it) for k in range(len(a.shape))])
    return SymArr(aval.shape, aval.dtype, f)


@rule("expand_dims")
def _ed(arrs, p, aval):
    a = arrs[0]
    dims = set(p["dimensions"])
    return SymArr(aval.shape, aval.dtype, lambda *i: a.at(*[x for k, x in enumerate(i) if k not in dims]))


@rule("reshape")
def _rs(arrs, p, aval):
    if p.get("dimensions") is not None:
        raise Unsupported("reshape with dimensions")
    a = arrs[0]
    src, dst = list(a.dims), [dim_poly(d) for d in aval.shape]
    groups = reshape_groups(src, dst)

    def f(*i):
        out = [None] * len(src)
        for si, di in groups:
            if len(si) == len(di) and all(src[x] == dst[y] for x, y in zip(si, di)):
                for x, y in zip(si, di):
                    out[x] = i[y]
                continue
            # linear index within the group
            lin = ZERO
            for y in di:
                lin = lin * dst[y] + i[y]
            for x in reversed(si):
                if x == si[0]:
                    out[x] = lin
                else:
                    qn = T.floordiv(lin, src[x])
                    out[x] = lin - src[x] * qn
                    lin = qn
        return a.at(*[ZERO if (o is None) else o for o in out])
    return SymArr(aval.shape, aval.dtype, f)


def reshape_groups(src, dst):
    groups = []
    i = j = 0
    while i < len(src) or j < len(dst):
        si, di = [], []
        # ones are free
        if i < len(src) and src[i] == ONE and not (j < len(dst) and dst[j] == ONE):
            groups.append(([i], [])); i += 1
            continue
        if j < len(dst) and dst[j] == ONE and not (i < len(src) and src[i] == ONE):
            groups.append(([], [j])); j += 1
            continue
        if i >= len(src) or j >= len(dst):
            # remaining dims must be ones
            if i < len(src):
                groups.append(([i], [])); i += 1
            else:
                groups.append(([], [j])); j += 1
            continue
        ps, pd = src[i], dst[j]
        si, di = [i], [j]
        i += 1; j += 1
        while ps != pd:
            # extend the side whose product properly divides the other
            ext_s = i < len(src)
            ext_d = j < len(dst)
            if ext_s and ext_d:
                # heuristics: compare by divisibility
                q1, r1 = T.div_multiple(pd, ps)
                if r1.is_zero() and pd != ps:
                    ps = ps * src[i]; si.append(i); i += 1
                else:
                    q2, r2 = T.div_multiple(ps, pd)
                    if r2.is_zero():
                        pd = pd * dst[j]; di.append(j); j += 1
                    elif ps.is_const() and pd.is_const() and ps.as_int() < pd.as_int():
                        ps = ps * src[i]; si.append(i); i += 1
                    elif pd.is_const() and ps.is_const():
                        pd = pd * dst[j]; di.append(j); j += 1
                    else:
                        ps = ps * src[i]; si.append(i); i += 1
                        pd = pd * dst[j]; di.append(j); j += 1
            elif ext_s:
                ps = ps * src[i]; si.append(i); i += 1
            elif ext_d:
                pd = pd * dst[j]; di.append(j); j += 1
            else:
                break
        groups.append((si, di))
    return groups


@rule("concatenate")
def _cat(arrs, p, aval):
    ax = p["dimension"]

    def f(*i):
        off = ZERO
        out = None
        k = i[ax]
        # build nested ite
        bounds = []
        for a in arrs:
            d = dim_poly(a.shape[ax])
            bounds.append((off, off + d, a))
            off = off + d
        if k.is_int_const():
            kk = k.as_int()
            for lo, hi, a in bounds:
                if hi.is_int_const():
                    if kk < hi.as_int():
                        return a.at(*i[:ax], k - lo, *i[ax + 1:])
                else:
                    break
        res = None
        for lo, hi, a in reversed(bounds):
            if isinstance(a.shape[ax], int) and a.shape[ax] == 0:
                continue
            if res is None:
                res = (lo, a)
                val = lambda lo=lo, a=a: a.at(*i[:ax], k - lo, *i[ax + 1:])
                cur = val
            else:
                c = T.lt0(k - hi)
                prev = cur
                if c == ONE:
                    cur = lambda lo=lo, a=a: a.at(*i[:ax], k - lo, *i[ax + 1:])
                elif c.is_zero():
                    pass
                else:
                    cur = lambda lo=lo, a=a, c=c, prev=prev: T.ite(c, a.at(*i[:ax], k - lo, *i[ax + 1:]), prev())
        return cur()
    return SymArr(aval.shape, aval.dtype, f)


@rule("slice")
def _slice(arrs, p, aval):
    st = [dim_poly(x) for x in p["start_indices"]]
    sr = p["strides"] or [1] * len(st)
    return SymArr(aval.shape, aval.dtype, lambda *i: arrs[0].at(*[s + x * dim_poly(k) for s, x, k in zip(st, i, sr)]))


@rule("dynamic_slice")
def _ds(arrs, p, aval):
    a, *st = arrs
    sz = [dim_poly(x) for x in aval.shape]
    n = a.dims

    def f(*i):
        s = [clampt(ZERO, x.at(), N - z) for x, N, z in zip(st, n, sz)]
        return a.at(*[x + y for x, y in zip(s, i)])
    return SymArr(aval.shape, aval.dtype, f)


@rule("dynamic_update_slice")
def _dus(arrs, p, aval):
    a, u, *st = arrs
    sz = u.dims
    n = a.dims

    def f(*i):
        s = [clampt(ZERO, x.at(), N - z) for x, N, z in zip(st, n, sz)]
        c = ONE
        for x, y, z in zip(i, s, sz):
            c = c * (ONE - T.lt0(x - y)) * T.lt0(x - y - z)
            if c.is_zero():
                return a.at(*i)
        uv = u.at(*[x - y for x, y in zip(i, s)]) if not (is_conc(u.shape) and all((x - y).is_int_const() for x, y in zip(i, s)) and c.is_zero()) else ZERO
        if c == ONE:
            return uv
        return T.ite(c, uv, a.at(*i))
    return SymArr(aval.shape, aval.dtype, f)


@rule("pad")
def _pad(arrs, p, aval):
    a, v = arrs
    cfg = p["padding_config"]
    n = a.dims

    def f(*i):
        c = ONE
        src = []
        for x, (lo, hi, st), N in zip(i, cfg, n):
            y = x - dim_poly(lo)
            if st:
                s1 = st + 1
                qn = T.floordiv(y, lift(s1))
                c = c * T.eq0(y - s1 * qn)
                y = qn
            c = c * (ONE - T.lt0(y)) * T.lt0(y - N)
            if c.is_zero():
                return v.at()
            src.append(y)
        if c == ONE:
            return a.at(*src)
        return T.ite(c, a.at(*src), v.at())
    return SymArr(aval.shape, aval.dtype, f)


@rule("rev")
def _rev(arrs, p, aval):
    a = arrs[0]
    ds = set(p["dimensions"])
    n = a.dims
    return SymArr(aval.shape, aval.dtype, lambda *i: a.at(*[n[k] - 1 - x if k in ds else x for k, x in enumerate(i)]))


@rule("iota")
def _iota(arrs, p, aval):
    d = p["dimension"]
    return SymArr(aval.shape, aval.dtype, lambda *i: i[d])


@call_rule("dim_as_value")
def _dav(trace, tracers, params, prim):
    d = dim_poly(params["dim"])
    return SymTracer(trace, SymArr((), core.dim_value_dtype(), lambda: d))


@rule("dimension_size")
def _dsz(arrs, p, aval):
    d = dim_poly(arrs[0].shape[p["dimension"]])
    return SymArr((), aval.dtype, lambda: d)


@rule("device_put")
def _dp(arrs, p, aval):
    return list(arrs)


@rule("gather")
def _gather(arrs, p, aval):
    a, idx = arrs
    dn = p["dimension_numbers"]
    ss = [dim_poly(x) for x in p["slice_sizes"]]
    mode = str(p["mode"])
    off = tuple(dn.offset_dims)
    coll = set(dn.collapsed_slice_dims)
    obd = set(getattr(dn, "operand_batching_dims", ()) or ())
    n = a.dims
    win_dims = [k for k in range(len(a.shape)) if k not in coll and k not in obd]
    fill = p.get("fill_value")

    def f(*i):
        b = [x for k, x in enumerate(i) if k not in off]
        w = [i[k] for k in off]
        pos = [ZERO] * len(n)
        guard = ONE
        for c, k in enumerate(dn.start_index_map):
            s = idx.at(*b, c)
            hi = n[k] - ss[k]
            if "CLIP" in mode or "PROMISE" in mode:
                s = clampt(ZERO, s, hi)
            else:
                guard = guard * (ONE - T.lt0(s)) * (ONE - T.lt0(hi - s))
            pos[k] = s
        for x, k in zip(w, win_dims):
            pos[k] = pos[k] + x
        if guard == ONE:
            return sel_at(a, pos)
        if fill is None:
            dt = np.dtype(aval.dtype)
            fv = T.lift(T.intern("special", "nan")) if np.issubdtype(dt, np.inexact) else lift(int(np.iinfo(dt).min) if np.issubdtype(dt, np.signedinteger) else (0 if dt == np.bool_ else int(np.iinfo(dt).max)))
        else:
            fv = lift(fill)
        if guard.is_zero():
            return fv
        return T.ite(guard, sel_at(a, pos), fv)
    return SymArr(aval.shape, aval.dtype, f)


def sel_at(a, pos):
    """element at possibly symbolic position; concrete dims with symbolic index are expanded to a case sum
    when the index term is finite-domain."""
    for k, x in enumerate(pos):
        d = a.shape[k]
        if isinstance(d, int) and not x.is_int_const():
            if d == 1:
                return sel_at(a, list(pos[:k]) + [ZERO] + list(pos[k + 1:]))
            if T.fin_vars([x]) is not None or ALWAYS_EXPAND[0]:
                if d > 64:
                    raise Unsupported("large symbolic gather")
                out = ZERO
                for j in range(d):
                    g = T.eq0(x - j)
                    if g.is_zero():
                        continue
                    out = out + g * sel_at(a, list(pos[:k]) + [lift(j)] + list(pos[k + 1:]))
                return out
    return a.at(*pos)


ALWAYS_EXPAND = [True]


@rule("scatter", "scatter-add", "scatter_add", "scatter-mul", "scatter_mul")
def _scatter(arrs, p, aval, kind=None):
    a, idx, u = arrs
    dn = p["dimension_numbers"]
    uwd = tuple(dn.update_window_dims)
    ins = set(dn.inserted_window_dims)
    obd = set(getattr(dn, "operand_batching_dims", ()) or ())
    n = a.dims
    win = [k for k in range(len(n)) if k not in ins and k not in obd]
    mode = str(p["mode"])
    bdims = [k for k in range(len(u.shape)) if k not in uwd]
    tied = {}
    if not is_conc([u.shape[k] for k in bdims]):
        # a symbolic batch axis is fine when an index column is the batch position itself (vmap of a scatter)
        probe = [T.fresh("sb") if not isinstance(u.shape[k], int) else ZERO for k in bdims]
        from . import logic as _lg
        for v, k in zip(probe, bdims):
            if not isinstance(u.shape[k], int):
                _lg.bound_var(v, dim_poly(u.shape[k]))
        for c, k in enumerate(dn.scatter_dims_to_operand_dims):
            x = idx.at(*probe, lift(c))
            for q, v in enumerate(probe):
                if not isinstance(u.shape[bdims[q]], int) and x == v and k in ins and n[k] == dim_poly(u.shape[bdims[q]]) and q not in tied:
                    tied[q] = (c, k)
        if any(not isinstance(u.shape[k], int) and q not in tied for q, k in enumerate(bdims)):
            raise Unsupported("scatter with symbolic batch")
    tcols = {c for c, _ in tied.values()}
    tdims = {k for _, k in tied.values()}
    kindname = p.get("_kind", "set")
    # window extents in operand dims
    wext = {}
    for pos_u, k in zip(uwd, win):
        wext[k] = dim_poly(u.shape[pos_u])

    def f(*i):
        cur = a.at(*i)
        for b in np.ndindex(*[1 if q in tied else u.shape[k] for q, k in enumerate(bdims)]):
            b = tuple(i[tied[q][1]] if q in tied else lift(int(x)) for q, x in enumerate(b))
            start = [ZERO] * len(n)
            okw = ONE
            for c, k in enumerate(dn.scatter_dims_to_operand_dims):
                if c in tcols:
                    start[k] = i[k]
                    continue
                s = idx.at(*b, c)
                ext = wext.get(k, ONE)
                if "CLIP" in mode:
                    s = clampt(ZERO, s, n[k] - ext)
                else:
                    okw = okw * (ONE - T.lt0(s)) * (ONE - T.lt0(n[k] - ext - s))
                start[k] = s
            c = okw
            rel = {}
            for k in range(len(n)):
                if k in tdims:
                    continue
                r = i[k] - start[k]
                if k in wext:
                    if not (start[k].is_zero() and wext[k] == n[k]):
                        c = c * (ONE - T.lt0(r)) * T.lt0(r - wext[k])
                    rel[k] = r
                else:
                    c = c * T.eq0(r)
                if c.is_zero():
                    break
            if c.is_zero():
                continue
            ui = [None] * len(u.shape)
            for pos_b, k in enumerate(bdims):
                ui[k] = b[pos_b]
            for pos_u, k in zip(uwd, win):
                ui[pos_u] = rel[k]
            uv = sel_at(u, ui)
            if kindname == "add":
                cur = cur + c * uv
            elif kindname == "mul":
                cur = T.ite(c, cur * uv, cur)
            else:
                cur = T.ite(c, uv, cur)
        return cur
    return SymArr(aval.shape, aval.dtype, f)


def _mk_sc(kind):
    def r(arrs, p, aval):
        p = dict(p)
        p["_kind"] = kind
        return _scatter(arrs, p, aval)
    return r


RULES["scatter"] = _mk_sc("set")
RULES["scatter-add"] = RULES["scatter_add"] = _mk_sc("add")
RULES["scatter_mul"] = RULES["scatter-mul"] = _mk_sc("mul")


# ---------------- reductions
def reduce_dims(a, axes):
    n = a.dims
    conc = [k for k in axes if isinstance(a.shape[k], int)]
    symb = [k for k in axes if not isinstance(a.shape[k], int)]
    return n, conc, symb


@rule("reduce_sum")
def _rsum(arrs, p, aval):
    a = arrs[0]
    axes = p["axes"]
    n, conc, symb = reduce_dims(a, axes)

    def f(*i):
        it = iter(i)
        pos = [None if k in axes else next(it) for k in range(len(a.shape))]
        vs = []
        for k in symb:
            v = T.fresh()
            from . import logic
            logic.bound_var(v, n[k])
            pos[k] = v
            vs.append((v, n[k]))
        tot = ZERO
        for c in np.ndindex(*[a.shape[k] for k in conc]):
            q_ = list(pos)
            for k, x in zip(conc, c):
                q_[k] = lift(int(x))
            tot = tot + a.at(*q_)
        return T.mk_sum(vs, tot) if vs else tot
    return SymArr(aval.shape, aval.dtype, f)


def red_fold(fn, unit=None):
    def r(arrs, p, aval):
        a = arrs[0]
        axes = p["axes"]
        n, conc, symb = reduce_dims(a, axes)
        if symb and fn not in (maxterm, minterm, _prodf):
            raise Unsupported("reduction over symbolic extent")

        def f(*i):
            it = iter(i)
            pos = [None if k in axes else next(it) for k in range(len(a.shape))]
            vals = []
            if symb:
                return product(a, pos, n, conc, symb) if fn is _prodf else extremum(a, pos, n, conc, symb, fn is minterm)
            for c in np.ndindex(*[a.shape[k] for k in conc]):
                q_ = list(pos)
                for k, x in zip(conc, c):
                    q_[k] = lift(int(x))
                vals.append(a.at(*q_))
            return fn(vals)
        return SymArr(aval.shape, aval.dtype, f)
    return r


def _prodf(vals):
    r = ONE
    for v in vals:
        r = r * v
    return r


def maxterm(vals):
    vals = list(dict.fromkeys(vals))
    if len(vals) == 1:
        return vals[0]
    if all(v.is_const() and v.real for v in vals):
        return lift(max(v.const()[0] for v in vals))
    t = T.tabulate(lambda *v: max(v), vals)
    if t is not None:
        return t
    # a known common shift does not matter: opaque symmetric maximum
    vals = sorted(vals, key=lambda v: sorted(v.d.items()))
    T.declare("max%d" % len(vals), real=True, int_=all(v.integer for v in vals), eval=lambda *v: max(x.real if isinstance(x, complex) else x for x in v))
    return T.app("max%d" % len(vals), *vals)


def _opaque(*a):
    raise NotImplementedError("opaque")


def extremum(a, pos, n, conc, symb, neg):
    """maximum over a symbolic extent: an unknown function of the multiset of the entries (represented by the sum of an unknown function of them)"""
    from . import logic
    vs = []
    for k in symb:
        v = T.fresh()
        logic.bound_var(v, n[k])
        pos[k] = v
        vs.append((v, n[k]))
    T.declare("max_u", real=True, eval=_opaque)
    T.declare("max_of", real=True, eval=_opaque)
    tot = ZERO
    for c in np.ndindex(*[a.shape[k] for k in conc]):
        q_ = list(pos)
        for k, x in zip(conc, c):
            q_[k] = lift(int(x))
        x = a.at(*q_)
        tot = tot + T.app("max_u", -x if neg else x)
    m = T.app("max_of", T.mk_sum(vs, tot))
    return -m if neg else m


def _plog(x):
    import cmath
    x = complex(x)
    return cmath.log(x) if x else -1e3


def product(a, pos, n, conc, symb):
    """product over a symbolic extent: exp of the sum of the logarithms, kept opaque (factors 1 drop out)"""
    import cmath
    from . import logic
    vs = []
    for k in symb:
        v = T.fresh()
        logic.bound_var(v, n[k])
        pos[k] = v
        vs.append((v, n[k]))
    T.declare("prod_u", real=False, eval=_plog)
    tot, real, int_ = ZERO, True, True
    for c in np.ndindex(*[a.shape[k] for k in conc]):
        q_ = list(pos)
        for k, x in zip(conc, c):
            q_[k] = lift(int(x))
        x = a.at(*q_)
        real, int_ = real and x.real, int_ and x.integer
        if not T.is_zero(x - ONE):
            tot = tot + T.app("prod_u", x)
    if T.is_zero(tot):
        return ONE
    nm = "prod_" + ("int" if int_ else "real" if real else "cpx")
    T.declare(nm, real=real, int_=int_, eval=(lambda y: round(cmath.exp(y).real)) if int_ else (lambda y: cmath.exp(y).real) if real else cmath.exp)
    return T.app(nm, T.mk_sum(vs, tot))


def minterm(vals):
    return -maxterm([-v for v in vals])


RULES["reduce_prod"] = red_fold(_prodf)
RULES["reduce_max"] = red_fold(maxterm)
RULES["reduce_min"] = red_fold(minterm)
RULES["reduce_and"] = red_fold(_prodf)
RULES["reduce_or"] = red_fold(lambda vs: ONE - _prodf([ONE - v for v in vs]))


def _argext(best_of, before):
    def rule_(arrs, p, aval):
        a = arrs[0]
        ax = p["axes"][0]
        n = a.shape[ax]
        if not isinstance(n, int):
            raise Unsupported("argmax over symbolic extent")

        def f(*i):
            vals = [a.at(*i[:ax], k, *i[ax:]) for k in range(n)]
            if all(v.is_const() for v in vals):
                fl = [v.const()[0] for v in vals]
                return lift(fl.index(best_of(fl)))
            t = T.tabulate(lambda *v: list(v).index(best_of(v)), vals)
            if t is not None:
                return t
            if PATH.enabled and len(a.shape) == 1:
                best = 0
                for k in range(1, n):                  # the first extremal entry
                    if PATH.decide(T.lt0(before(vals[k], vals[best]))):
                        best = k
                return lift(best)
            raise Unsupported("argmax of symbolic values")
        return SymArr(aval.shape, aval.dtype, f)
    return rule_


RULES["argmax"] = _argext(max, lambda v, w: w - v)
RULES["argmin"] = _argext(min, lambda v, w: v - w)


def _cum(op):
    def r(arrs, p, aval):
        a = arrs[0]
        ax = p["axis"]
        rv = p["reverse"]
        n = a.dims[ax]

        def f(*i):
            k = i[ax]
            if not n.is_int_const():
                if op != "sum":
                    raise Unsupported("cumulative op over symbolic extent")
                v = T.fresh()
                from . import logic
                if rv:
                    raise Unsupported("reverse cumsum symbolic")
                logic.bound_var(v, k + 1)
                return T.mk_sum([(v, k + 1)], a.at(*i[:ax], v, *i[ax + 1:]))
            N = n.as_int()
            if not k.is_int_const():
                out = ZERO
                for j in range(N):
                    g = T.eq0(k - j)
                    if not g.is_zero():
                        out = out + g * f(*i[:ax], lift(j), *i[ax + 1:])
                return out
            rng = range(k.as_int(), N) if rv else range(0, k.as_int() + 1)
            vals = [a.at(*i[:ax], j, *i[ax + 1:]) for j in rng]
            if op == "sum":
                t = ZERO
                for v in vals:
                    t = t + v
                return t
            if op == "prod":
                return _prodf(vals)
            if op == "max":
                return maxterm(vals)
            return minterm(vals)
        return SymArr(aval.shape, aval.dtype, f)
    return r


for o in ("sum", "prod", "max", "min"):
    RULES["cum" + o] = _cum(o)


@rule("dot_general")
def _dot(arrs, p, aval):
    a, b = arrs
    (ca, cb), (ba, bb) = p["dimension_numbers"]
    ra = [k for k in range(len(a.shape)) if k not in ca and k not in ba]
    rb = [k for k in range(len(b.shape)) if k not in cb and k not in bb]
    nc = [dim_poly(a.shape[k]) for k in ca]

    def f(*i):
        nb = len(ba)
        pa = [None] * len(a.shape)
        pb = [None] * len(b.shape)
        for x, k, l in zip(i, ba, bb):
            pa[k] = x
            pb[l] = x
        for x, k in zip(i[nb:], ra):
            pa[k] = x
        for x, l in zip(i[nb + len(ra):], rb):
            pb[l] = x
        vs = []
        cidx = []
        for k, l, N in zip(ca, cb, nc):
            if N.is_int_const():
                cidx.append(range(N.as_int()))
            else:
                v = T.fresh()
                from . import logic
                logic.bound_var(v, N)
                vs.append((v, N))
                cidx.append([v])
        tot = ZERO
        for c in itertools.product(*cidx):
            for x, k, l in zip(c, ca, cb):
                pa[k] = lift(x)
                pb[l] = lift(x)
            av = a.at(*pa)
            if av.is_zero():
                continue
            tot = tot + av * b.at(*pb)
        return T.mk_sum(vs, tot) if vs else tot
    return SymArr(aval.shape, aval.dtype, f)


@rule("conv_general_dilated")
def _conv(arrs, p, aval):
    x, k = arrs
    dn = p["dimension_numbers"]
    if p["feature_group_count"] != 1 or p["batch_group_count"] != 1:
        raise Unsupported("grouped conv")
    ls, rs, os = dn.lhs_spec, dn.rhs_spec, dn.out_spec
    nsp = len(ls) - 2
    ksp = [k.shape[rs[2 + d]] for d in range(nsp)]
    cin = k.shape[rs[1]]
    xs = [dim_poly(x.shape[ls[2 + d]]) for d in range(nsp)]
    st, pad, ld, rd = p["window_strides"], p["padding"], p["lhs_dilation"], p["rhs_dilation"]
    if any(l != 1 for l in ld):
        raise Unsupported("lhs dilation")

    def f(*i):
        tot = ZERO
        for kk in np.ndindex(*ksp):
            xi = [None] * len(x.shape)
            ki = [None] * len(k.shape)
            xi[ls[0]] = i[os[0]]
            ki[rs[0]] = i[os[1]]
            g = ONE
            for d in range(nsp):
                pos = i[os[2 + d]] * st[d] + kk[d] * rd[d] - pad[d][0]
                g = g * (ONE - T.lt0(pos)) * T.lt0(pos - xs[d])
                xi[ls[2 + d]] = pos
                ki[rs[2 + d]] = lift(int(kk[d]))
            if g.is_zero():
                continue
            for c in range(cin):
                xi[ls[1]] = lift(c)
                ki[rs[1]] = lift(c)
                tot = tot + g * x.at(*xi) * k.at(*ki)
        return tot
    return SymArr(aval.shape, aval.dtype, f)


@rule("sort")
def _sort(arrs, p, aval):
    ax = p["dimension"]
    nk = p["num_keys"]
    n = arrs[0].shape[ax]
    if not isinstance(n, int) or nk != 1:
        raise Unsupported("sort over symbolic extent")
    if n == 1:
        return list(arrs)
    outs = []
    key = arrs[0]
    for which, a in enumerate(arrs):
        def f(*i, a=a):
            k = i[ax]
            if not k.is_int_const():
                out = ZERO
                for j in range(n):
                    g = T.eq0(k - j)
                    if not g.is_zero():
                        out = out + g * f(*i[:ax], lift(j), *i[ax + 1:])
                return out
            ks = [key.at(*i[:ax], j, *i[ax + 1:]) for j in range(n)]
            vs = [a.at(*i[:ax], j, *i[ax + 1:]) for j in range(n)]
            kk = k.as_int()
            if all(x.is_const() for x in ks):
                order = sorted(range(n), key=lambda j: ks[j].const()[0])
                return vs[order[kk]]
            if a is key:
                t = T.tabulate(lambda *v: sorted(v)[kk], ks, limit=4096)
                if t is not None:
                    return t
            # rank-based selection: Σ_j [rank(j)==k] v_j with rank from pairwise comparisons
            groups = T.fin_vars(ks)
            if groups is None:
                raise Unsupported("sort of symbolic keys")
            out = ZERO
            for j in range(n):
                g = T.tabulate(lambda *v, j=j: int(sorted(range(n), key=lambda z: v[z])[kk] == j), ks, limit=4096)
                if g is None:
                    raise Unsupported("sort too large")
                out = out + g * vs[j]
            return out
        outs.append(SymArr(a.shape, a.dtype, f))
    return outs


# ---------------- control flow
@call_rule("cond")
def _cond(trace, tracers, params, prim):
    br = params["branches"]
    idx, *ops = tracers
    t = get_arr(idx).at()
    isb = idx.aval.dtype == np.bool_
    if t.is_int_const():
        k = min(max(t.as_int(), 0), len(br) - 1)
        cj = br[k]
        return eval_closed(trace, cj.jaxpr, cj.consts, ops)
    outs = [eval_closed(trace, cj.jaxpr, cj.consts, ops) for cj in br]
    res = []
    for vals in zip(*outs):
        arrs = [get_arr(v) for v in vals]
        av = vals[0].aval

        def f(*i, arrs=arrs):
            if len(arrs) == 2:
                c = ONE - T.eq0(t) if not isb else t
                # index clamps to [0,1]
                return T.ite(c, arrs[1].at(*i), arrs[0].at(*i))
            out = ZERO
            for j, a in enumerate(arrs):
                out = out + T.eq0(t - j) * a.at(*i)
            return out
        res.append(SymTracer(trace, SymArr(av.shape, av.dtype, f), aval=av if is_shaped(av) else None))
    return res


def index0(trace, x, i):
    a = get_arr(x)
    return SymTracer(trace, SymArr(a.shape[1:], a.dtype, lambda *j: a.at(i, *j)))


def materialize(x):
    return x


LOOP_HOOKS = []


@call_rule("scan")
def _scan(trace, tracers, params, prim):
    nc, ncar, length, rev = params["num_consts"], params["num_carry"], params["length"], params["reverse"]
    cj = params["jaxpr"]
    consts, carry, xs = tracers[:nc], list(tracers[nc:nc + ncar]), tracers[nc + ncar:]
    if isinstance(length, (int, np.integer)) and length <= 64:
        ys = []
        order = range(length)
        for k in (reversed(order) if rev else order):
            outs = eval_closed(trace, cj.jaxpr, cj.consts, list(consts) + carry + [index0(trace, x, k) if x.const is None else trace.pure(np.asarray(x.const)[k]) for x in xs])
            carry = outs[:ncar]
            ys.append(outs[ncar:])
        if rev:
            ys.reverse()
        res = list(carry)
        out_avals = [v.aval for v in cj.jaxpr.outvars[ncar:]]
        for j, av in enumerate(out_avals):
            col = [get_arr(y[j]) for y in ys]

            def f(k, *i, col=col):
                if k.is_int_const():
                    return col[k.as_int()].at(*i)
                out = ZERO
                for jj, c in enumerate(col):
                    g = T.eq0(k - jj)
                    if not g.is_zero():
                        out = out + g * c.at(*i)
                return out
            res.append(SymTracer(trace, SymArr((int(length),) + tuple(av.shape), av.dtype, f)))
        return res
    # symbolic length
    N = dim_poly(length)
    from . import logic
    t = T.fresh("t")
    logic.bound_var(t, N)
    xi = [index0(trace, x, (N - 1 - t) if rev else t) for x in xs]
    cur = closed_form_carry(trace, cj, consts, carry, xi, t, N)
    outs = eval_closed(trace, cj.jaxpr, cj.consts, list(consts) + cur + xi)
    res = []
    tid = T.vid(t)
    for j in range(ncar):
        a = get_arr(cur[j])
        res.append(SymTracer(trace, SymArr(a.shape, a.dtype, lambda *i, a=a: T.subst(a.at(*i), {tid: N}))))
    for y in outs[ncar:]:
        a = get_arr(y)
        res.append(SymTracer(trace, SymArr((length,) + tuple(a.shape), a.dtype,
                                           lambda k, *i, a=a: T.subst(a.at(*i), {tid: (N - 1 - k) if rev else k}))))
    return res


def closed_form_carry(trace, cj, consts, carry, xi, t, N):
    """closed form of the carry as a function of the iteration number t (invariant found, then checked):
    constant, affine counter c0 + k t, or accumulated sum c0 + Σ_{u<t} g(u)."""
    n = len(carry)
    if n == 0:
        return []
    from . import logic
    # havoc'd carry
    names = []
    hav = []
    for c in carry:
        nm = "carry#%d" % next(T._fresh)
        a = get_arr(c)
        cplx = np.issubdtype(a.dtype, np.complexfloating)
        T.declare(nm, real=not cplx, int_=np.issubdtype(a.dtype, np.integer))
        names.append(nm)
        hav.append(SymTracer(trace, SymArr(a.shape, a.dtype, lambda *i, nm=nm: T.app(nm, *i))))
    outs = eval_closed(trace, cj.jaxpr, cj.consts, list(consts) + hav + xi)[:n]
    res = []
    tid = T.vid(t)
    for j in range(n):
        a0 = get_arr(carry[j])
        ao = get_arr(outs[j])
        nm = names[j]
        idx = [T.fresh() for _ in a0.shape]
        for v, d in zip(idx, a0.dims):
            logic.bound_var(v, d)
        delta = ao.at(*idx) - T.app(nm, *idx)
        if mentions(delta, names):
            raise Unsupported("loop carry without closed form")
        if delta.is_zero():
            res.append(carry[j])
        elif tid not in delta.fv:
            ids = [T.vid(v) for v in idx]
            res.append(SymTracer(trace, SymArr(a0.shape, a0.dtype, lambda *i, a0=a0, delta=delta, ids=ids: a0.at(*i) + t * T.subst(delta, dict(zip(ids, i))))))
        else:
            ids = [T.vid(v) for v in idx]

            def f(*i, a0=a0, delta=delta, ids=ids):
                d = T.subst(delta, dict(zip(ids, i)))
                u = T.fresh("u")
                logic.bound_var(u, t)
                return a0.at(*i) + T.mk_sum([(u, t)], T.subst(d, {tid: u}))
            res.append(SymTracer(trace, SymArr(a0.shape, a0.dtype, f)))
    return res


def mentions(p, names):
    names = set(names)
    seen = set()

    def rp(p):
        return any(ra(i) for i in p.atoms())

    def ra(i):
        if i in seen:
            return False
        seen.add(i)
        a = T._atoms[i]
        d = a.data
        if a.kind in ("app", "ind"):
            return d[0] in names or any(rp(x) for x in d[1])
        if a.kind in ("exp", "log", "pbase"):
            return rp(d)
        if a.kind == "conj":
            return ra(d.id)
        if a.kind == "fdiv":
            return rp(d[0]) or rp(d[1])
        if a.kind == "cmp":
            return rp(d[1])
        if a.kind == "sum":
            return rp(d[2]) or any(rp(e) for e in d[1])
        return False
    return rp(p)


@call_rule("while")
def _while(trace, tracers, params, prim):
    cn, bn = params["cond_nconsts"], params["body_nconsts"]
    cc, bc, carry = tracers[:cn], tracers[cn:cn + bn], list(tracers[cn + bn:])
    cj, bj = params["cond_jaxpr"], params["body_jaxpr"]
    for _ in range(200):
        c = eval_closed(trace, cj.jaxpr, cj.consts, list(cc) + carry)[0]
        t = get_arr(c).at() if c.const is None else (ONE if bool(c.const) else ZERO)
        if t.is_zero():
            return carry
        if t != ONE:
            raise Unsupported("while loop with symbolic condition")
        carry = eval_closed(trace, bj.jaxpr, bj.consts, list(bc) + carry)
    raise Unsupported("while loop too long")


@rule("split")
def _split(arrs, p, aval):
    a = arrs[0]
    ax = p["axis"]
    off = 0
    outs = []
    for s, av in zip(p["sizes"], aval):
        outs.append(SymArr(av.shape, av.dtype, lambda *i, off=off: a.at(*i[:ax], i[ax] + off, *i[ax + 1:])))
        off += s
    return outs


@rule("bitcast_convert_type")
def _bct(arrs, p, aval):
    # signbit is implemented by a bit test: model sign bit of a float as [x<0]
    raise Unsupported("bitcast")


def _signbit_hook(trace, tracers, params):
    """jax.numpy.signbit tests bits of the floating point representation; over the reals the sign bit is [x < 0]"""
    a, = [get_arr(t) for t in tracers]
    return [SymTracer(trace, SymArr(a.shape, np.dtype(bool), lambda *i: T.lt0(a.at(*i))))]


PJIT_HOOKS["signbit"] = _signbit_hook


@rule("select_and_gather_add", "erf", "erf_inv", "lgamma", "digamma", "cbrt", "asin", "acos", "atan", "random_bits", "threefry2x32")
def _unsup(arrs, p, aval):
    raise Unsupported("primitive outside the modelled set")


# ------------------------------------------------------------------ collectives over a mapped axis (positional after batching)
@call_rule("psum")
def _psum(trace, tracers, params, prim):
    if params.get("axis_index_groups") is not None:
        raise Unsupported("psum with groups")
    axes = tuple(params["axes"])
    if any(not isinstance(a, int) for a in axes):
        raise Unsupported("psum over unbound axis name")
    out = []
    for t in tracers:
        a = get_arr(t)
        sh = tuple(d for k, d in enumerate(a.shape) if k not in axes)
        out.append(SymTracer(trace, _rsum([a], dict(axes=axes), ShapedArray(sh, a.dtype))))
    return out


# ------------------------------------------------------------------ uninterpreted functions usable inside vmap / grad / scan / jit
from jax.interpreters import batching as _batching, ad as _ad
from jax import lax as _lax

ufun_p = core.Primitive("ufun")
ugrad_p = core.Primitive("ugrad")


def ufun(name, *xs, dtype=np.complex128):
    """scalar f(x_1, .., x_n) of all entries of the (concrete-shape) arguments; declared by the caller with T.declare(name, ..)"""
    xs = [jnp.asarray(x) for x in xs]
    return ufun_p.bind(*xs, name=name, dtype=np.dtype(dtype), nb=0)


def _bshape(xs, nb):
    return tuple(xs[0].shape[:nb])


@ufun_p.def_abstract_eval
def _ufun_abs(*xs, name, dtype, nb):
    return core.ShapedArray(_bshape(xs, nb), dtype)


@ugrad_p.def_abstract_eval
def _ugrad_abs(*xs, name, dtype, nb, k):
    return core.ShapedArray(tuple(xs[k].shape), dtype)


def _ubatch(prim):
    def b(args, dims, *, nb, **kw):
        size = next(a.shape[d] for a, d in zip(args, dims) if d is not _batching.not_mapped)
        xs = [_batching.bdim_at_front(a, d, size) for a, d in zip(args, dims)]
        return prim.bind(*xs, nb=nb + 1, **kw), 0
    return b


_batching.primitive_batchers[ufun_p] = _ubatch(ufun_p)
_batching.primitive_batchers[ugrad_p] = _ubatch(ugrad_p)


def _uargs(arrs, i, nb):
    out = []
    for a in arrs:
        for t in np.ndindex(*[int(d) for d in a.shape[nb:]]):
            out.append(a.at(*i[:nb], *t))
    return out


@rule("ufun")
def _ufun_rule(arrs, p, aval):
    nb = p["nb"]
    return SymArr(aval.shape, aval.dtype, lambda *i: T.app(p["name"], *_uargs(arrs, i, nb)))


@rule("ugrad")
def _ugrad_rule(arrs, p, aval):
    nb, k = p["nb"], p["k"]
    off = sum(int(np.prod([int(d) for d in a.shape[nb:]], dtype=int)) for a in arrs[:k])
    tr = [int(d) for d in arrs[k].shape[nb:]]

    def f(*i):
        if not all(x.is_int_const() for x in i[nb:]):
            out = ZERO
            for t in np.ndindex(*tr):
                g = ONE
                for x, y in zip(i[nb:], t):
                    g = g * T.eq0(x - y)
                out = out + g * f(*i[:nb], *[lift(y) for y in t])
            return out
        pos = off + (int(np.ravel_multi_index([x.as_int() for x in i[nb:]], tr)) if tr else 0)
        return T.app("%s'%d" % (p["name"], pos), *_uargs(arrs, i, nb))
    return SymArr(aval.shape, aval.dtype, f)


def _ufun_jvp(primals, tangents, *, name, dtype, nb):
    out = ufun_p.bind(*primals, name=name, dtype=dtype, nb=nb)
    tan = None
    for k, (x, t) in enumerate(zip(primals, tangents)):
        if type(t) is _ad.Zero or not jnp.issubdtype(x.dtype, jnp.inexact):
            continue
        g = ugrad_p.bind(*primals, name=name, dtype=dtype, nb=nb, k=k)
        c = jnp.sum(g * t, axis=tuple(range(nb, x.ndim)))
        tan = c if tan is None else tan + c
    return out, (jnp.zeros(out.shape, out.dtype) if tan is None else tan.astype(out.dtype))


_ad.primitive_jvps[ufun_p] = _ufun_jvp
