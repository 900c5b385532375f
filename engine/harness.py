"""Loads the real jVMC package into a symbolic-execution environment and collects proof obligations.

What the loader replaces (the complete list of stand-ins; everything else that runs is /repo's code):
  * jax.pmap            -> jax.vmap over the leading axis (the documented meaning of pmap), same in_axes/axis_name/
                           static_broadcasted_argnums; `devices` is ignored, the device axis has a symbolic length;
  * mpi4py              -> MPI contract stub: `rank`, `commSize` are symbolic, Allreduce(SUM) is the sum over all ranks of
                           the local contribution, allgather the rank-ordered list, bcast/Bcast the root's value;
  * numpy constructors  -> (np.array, np.asarray, np.empty, ...) of symbolic values stay symbolic (host copies are mutable);
  * jax.random          -> contracts on the random draws (see engine/rand.py), only where a contract file asks for it.
"""
import sys, os, time, types, json, traceback, functools, signal, math, random
import numpy as np

os.environ.setdefault("JAX_PLATFORMS", "cpu")
import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp
from . import sym, terms as T, logic
from .sym import SymTracer, SymArr, Unsupported
from .terms import ZERO, ONE, lift

REPO = os.environ.get("VP_REPO", "/repo")

# ------------------------------------------------------------------ pmap
real_pmap = jax.pmap
DEVDIM = [None]          # the number of devices (precondition of pmap on its leading axis), when a contract sets it


class Violated(Exception):
    """a callee's precondition is violated by the code"""


def sym_pmap(fun, axis_name=None, *, in_axes=0, out_axes=0, static_broadcasted_argnums=(), devices=None, backend=None,
             axis_size=None, donate_argnums=(), global_arg_shapes=None):
    st = static_broadcasted_argnums
    st = (st,) if isinstance(st, int) else tuple(st or ())

    @functools.wraps(fun)
    def wrapped(*args, **kw):
        dyn = [i for i in range(len(args)) if i not in st]

        def g(*d, **k):
            full = list(args)
            for i, x in zip(dyn, d):
                full[i] = x
            return fun(*full, **k)
        dargs = [args[i] for i in dyn]
        if DEVDIM[0] is not None:
            ax = in_axes if isinstance(in_axes, (list, tuple)) else [in_axes] * len(dargs)
            if len(ax) == len(args) and st:
                ax = [ax[i] for i in dyn]
            for a, d in zip(ax, dargs):
                if a == 0 and hasattr(d, "shape") and len(d.shape) and not (d.shape[0] == DEVDIM[0]):
                    raise Violated("pmap precondition: leading axis %s of an argument is not the number of devices %s" % (d.shape[0], DEVDIM[0]))
        ia = in_axes
        if isinstance(ia, (list, tuple)) and len(ia) == len(args) and st:
            ia = tuple(ia[i] for i in dyn)
        if kw:
            iax = tuple(ia) if isinstance(ia, (tuple, list)) else (ia,) * len(dargs)

            def h(pos, k):
                return g(*pos, **k)
            r = jax.vmap(h, in_axes=(iax, 0), out_axes=out_axes, axis_name=axis_name)(tuple(dargs), kw)
        else:
            r = jax.vmap(g, in_axes=tuple(ia) if isinstance(ia, list) else ia, out_axes=out_axes,
                         axis_name=axis_name)(*dargs)
        return r
    return wrapped


# ------------------------------------------------------------------ MPI contract
class RankList:
    """value of comm.allgather(x): list indexed by rank, with a symbolic (or concrete) number of ranks."""

    def __init__(self, x, comm):
        self.x, self.comm = x, comm

    def item(self, r):
        return at_rank(self.x, self.comm, r)

    def __len__(self):
        raise Unsupported("len of gathered list")

    def __getitem__(self, r):
        return self.item(lift_int(r))


def lift_int(r):
    if isinstance(r, SymTracer):
        return r.term()
    if isinstance(r, (int, np.integer)):
        return lift(int(r))
    if isinstance(r, T.Poly):
        return r
    return sym.dim_poly(r)


def at_rank(x, comm, r):
    """value of x on rank r (x depends on the symbolic rank of the executing process)."""
    vr = comm.rvar
    if isinstance(x, (list, tuple)):
        return type(x)(at_rank(y, comm, r) for y in x)
    if isinstance(x, SymTracer):
        a = sym.get_arr(x)
        return sym.array(SymArr(a.shape, a.dtype, lambda *i: T.subst(a.at(*i), {T.vid(vr): r})))
    return x


class SymComm:
    """MPI contract. rank: symbolic variable r with 0<=r<R."""

    def __init__(self):
        self.rvar = T.var("r", int_=True, nonneg=True)
        self.R = T.var("R", int_=True, pos=True, nonneg=True)
        self.Rdim = None
        self.log = []

    def Get_rank(self):
        return 0

    def Get_size(self):
        return 1

    def _sum(self, a):
        a = sym.get_arr(a)
        rv = T.fresh("rk")

        def f(*i):
            logic.bound_var(rv, self.R)
            return T.mk_sum([(rv, self.R)], T.subst(a.at(*i), {T.vid(self.rvar): rv}))
        return sym.array(SymArr(a.shape, a.dtype, f))

    def Allreduce(self, send, recv, op=None):
        if op not in (None, FakeMPI.SUM):
            raise Unsupported("Allreduce op")
        if not isinstance(send, SymTracer):
            send = sym.array(sym.const_arr(np.asarray(send)))
        self.log.append("Allreduce")
        r = self._sum(send)
        if not isinstance(recv, SymTracer):
            raise Unsupported("Allreduce into a concrete buffer")
        if tuple(recv.shape) != tuple(send.shape) or recv.dtype != send.dtype:
            raise Unsupported("Allreduce buffers differ in shape/dtype")
        sym.overwrite(recv, r)

    def allreduce(self, send, op=None):
        if op not in (None, FakeMPI.SUM):
            raise Unsupported("allreduce op")
        return self._sum(send)

    def allgather(self, x):
        self.log.append("allgather")
        return RankList(x, self)

    def bcast(self, x, root=0):
        return at_rank(x, self, lift_int(root))

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("MPI call " + k)


class FakeMPI:
    SUM = "SUM"
    DOUBLE = "DOUBLE"
    MAX = "MAX"
    MIN = "MIN"
    COMM_WORLD = None


def concat_ranks(rl, axis=0):
    x = rl.x
    a = sym.get_arr(x)
    if axis != 0:
        raise Unsupported("concatenate gathered along axis != 0")
    n = sym.dim_poly(a.shape[0])
    Rd = rl.comm.Rdim

    def f(i, *rest):
        q = T.floordiv(i, n)
        j = i - q * n
        return T.subst(a.at(j, *rest), {T.vid(rl.comm.rvar): q})
    return sym.mark_np(sym.array(SymArr((Rd * a.shape[0],) + tuple(a.shape[1:]), a.dtype, f)))


# ------------------------------------------------------------------ numpy shim
def _has_sym(x, depth=0):
    if isinstance(x, (SymTracer, RankList)):
        return True
    if isinstance(x, jax.core.Tracer):
        return True
    if isinstance(x, (list, tuple)) and depth < 3:
        return any(_has_sym(y, depth + 1) for y in x)
    if isinstance(x, dict) and depth < 3:
        return any(_has_sym(y, depth + 1) for y in x.values())
    return False


def _sym_shape(s):
    s = s if isinstance(s, (tuple, list)) else (s,)
    return any(not isinstance(d, (int, np.integer)) for d in s)


class NPProxy(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")

    def __getattr__(self, k):
        return getattr(np, k)

    @staticmethod
    def array(x, dtype=None, **kw):
        if _has_sym(x):
            return sym.mark_np(jnp.array(x, dtype=dtype))
        return np.array(x, dtype=dtype, **kw)

    @staticmethod
    def asarray(x, dtype=None, **kw):
        if _has_sym(x):
            return sym.mark_np(jnp.asarray(x, dtype=dtype))
        return np.asarray(x, dtype=dtype, **kw)

    @staticmethod
    def empty(shape, dtype=float, **kw):
        if _sym_shape(shape):
            return sym.mark_np(sym.undefined(tuple(shape) if isinstance(shape, (tuple, list)) else (shape,), np.dtype(dtype)))
        return np.empty(shape, dtype=dtype, **kw)

    @staticmethod
    def zeros(shape, dtype=float, **kw):
        if _sym_shape(shape):
            return sym.mark_np(jnp.zeros(shape, dtype=dtype))
        return np.zeros(shape, dtype=dtype, **kw)

    @staticmethod
    def ones(shape, dtype=float, **kw):
        if _sym_shape(shape):
            return sym.mark_np(jnp.ones(shape, dtype=dtype))
        return np.ones(shape, dtype=dtype, **kw)

    @staticmethod
    def concatenate(xs, axis=0, **kw):
        if isinstance(xs, RankList):
            return concat_ranks(xs, axis)
        if _has_sym(xs):
            return sym.mark_np(jnp.concatenate(xs, axis=axis))
        return np.concatenate(xs, axis=axis, **kw)

    @staticmethod
    def vstack(xs, **kw):
        if isinstance(xs, RankList):
            return concat_ranks(xs, 0)
        if _has_sym(xs):
            return sym.mark_np(jnp.vstack(xs))
        return np.vstack(xs, **kw)

    @staticmethod
    def stack(xs, axis=0, **kw):
        if _has_sym(xs):
            return sym.mark_np(jnp.stack(xs, axis=axis))
        return np.stack(xs, axis=axis, **kw)


NP = NPProxy()


def sym_int(x=0, *a):
    """int() of a symbolic non-negative integer value is the value itself."""
    if isinstance(x, SymTracer):
        if np.issubdtype(x.dtype, np.integer):
            return x
        raise Unsupported("int() of a symbolic float")
    if isinstance(x, sym.shape_poly._DimExpr):
        return x
    return int(x, *a) if a else int(x)


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int)

    def __call__(cls, *a):
        return sym_int(*a)


class SymIntType(metaclass=_IntMeta):
    pass


# ------------------------------------------------------------------ loading
JV = None


def load(shim_modules=("mpi_wrapper", "stats", "sampler", "vqs", "util.tdvp", "util.minsr", "util.stepper",
                       "util.util", "operator.base", "operator.branch_free", "operator.povm")):
    """import /repo's jVMC with the stand-ins listed above."""
    global JV
    if JV is not None:
        return JV
    comm = SymComm()
    mpi = types.ModuleType("mpi4py")
    m2 = types.ModuleType("mpi4py.MPI")
    for k, v in FakeMPI.__dict__.items():
        if not k.startswith("__"):
            setattr(m2, k, v)
    m2.COMM_WORLD = comm
    mpi.MPI = m2
    sys.modules["mpi4py"] = mpi
    sys.modules["mpi4py.MPI"] = m2
    jax.pmap = sym_pmap
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    import jVMC
    assert os.path.realpath(jVMC.__file__).startswith(os.path.realpath(REPO) + "/"), jVMC.__file__
    import importlib
    for m in shim_modules:
        mod = importlib.import_module("jVMC." + m)
        for k, v in list(vars(mod).items()):
            if v is np:
                setattr(mod, k, NP)
    jVMC._comm = comm
    JV = jVMC
    return JV


def comm():
    return load()._comm


# ------------------------------------------------------------------ obligations
class TimeUp(Exception):
    pass


class SkipBlock(Exception):
    pass


class Checker:
    def __init__(self, prop, tier="quick", seed=1, out=None):
        self.entered, self.only, self.pending = 0, None, []
        self.prop, self.tier, self.seed, self.out = prop, tier, seed, out
        self.obs = []
        self.blocks = []
        self.functions = []
        self.assumptions = []
        self.loops = []
        self.cur = None
        self.t0 = time.time()

    # -- bookkeeping
    def fn(self, *names):
        for n in names:
            if n not in self.functions:
                self.functions.append(n)

    def assume(self, *txt):
        for t in txt:
            if t not in self.assumptions:
                self.assumptions.append(t)

    def rec(self, name, status, backend, dt, detail="", sat=False):
        full = (self.cur + "/" if self.cur else "") + name
        if status == "refuted" and self.conds() and not sat:
            status, detail = "undecided", "on a branch whose condition could not be met numerically: " + str(detail)
        self.obs.append(dict(name=full, status=status, backend=backend, time=round(dt, 3), detail=str(detail)[:1500]))
        self.flush()

    def conds(self):
        """conditions of host branches taken by the code outside explore()"""
        return [] if sym.PATH.exploring else sym.PATH.cond

    def envs(self, polys, tries, vals=None):
        """random interpretations that satisfy the branch conditions"""
        cs = self.conds()
        for s in range(tries if not cs else 24):
            env = T.Env(seed=self.seed * 1000 + s, mode=s % 4 if cs else 0)
            try:
                assign(env, list(polys) + cs, s, vals)
                if cs and any(abs(complex(T.neval(c, env)) - 1) > 1e-9 for c in cs):
                    continue
            except (ZeroDivisionError, OverflowError, NotImplementedError, ValueError, TypeError):
                continue
            yield env

    def flush(self):
        if self.out:
            tmp = self.out + ".tmp"
            with open(tmp, "w") as f:
                json.dump(dict(obs=self.obs, functions=self.functions, assumptions=self.assumptions,
                               wall=time.time() - self.t0, smt=logic.STAT, blocks=self.blocks), f)
            os.replace(tmp, self.out)

    def run(self, fn, limit=250, most=40):
        """all obligations, on every branch that the code takes on symbolic values"""
        fn(self)
        t, n = time.time(), 0
        while self.pending:
            no, prefix = self.pending.pop(0)
            if time.time() - t > limit or n >= most:
                self.undecided("other branches", "%d branches of host control flow not explored" % (len(self.pending) + 1))
                break
            n += 1
            self.entered, self.only = 0, (no, prefix)
            try:
                fn(self)
            except Exception as e:
                self.undecided("branch %s of block %d" % (prefix, no), "%s: %s" % (type(e).__name__, str(e)[:300]))
        self.only = None

    def block(self, name, functions=(), limit=150, expect=1):
        return Block(self, name, functions, limit)

    # -- index variables
    def idx(self, name, n):
        v = T.var(name, int_=True, nonneg=True)
        logic.bound_var(v, sym.dim_poly(n) if not isinstance(n, T.Poly) else n)
        return v

    # -- obligations
    def eq(self, name, lhs, rhs, hyp=None, vals=None, tries=6):
        """lhs == rhs as terms, for all values of free variables/functions."""
        t = time.time()
        lhs, rhs = lift(lhs), lift(rhs)
        d = lhs - rhs
        if hyp is not None:
            d = d * hyp
        if self.conds():
            d = sym.PATH.norm(d)
        try:
            ok = T.is_zero(d)
            how = "ring normal form"
            if not ok:
                ok = split_zero(d)
                how = "ring normal form + case split"
        except T.Budget:
            ok = False
        if ok:
            self.rec(name, "proved", how, time.time() - t)
            return True
        # refutation: evaluate both sides under random interpretations
        bad = None
        for env in self.envs([lhs, rhs], tries, vals):
            try:
                a, b = complex(T.neval(lhs, env)), complex(T.neval(rhs, env))
                if hyp is not None and abs(T.neval(hyp, env)) < 1e-12:
                    continue
                if not (math.isfinite(a.real) and math.isfinite(b.real)):
                    continue
                if abs(a - b) > 1e-7 * (1 + abs(a) + abs(b)):
                    bad = (env, a, b)
                    break
            except (ZeroDivisionError, OverflowError, NotImplementedError, ValueError, TypeError):
                continue
        if bad:
            env, a, b = bad
            cm = {k: v for k, v in env.vals.items() if not k.startswith("_b")}
            self.rec(name, "refuted", "ring normal form + evaluation", time.time() - t,
                     "counterexample: code=%s spec=%s at %s; inputs %s; code term %s; spec term %s" % (
                         a, b, cm, str({"%s%s" % k: v for k, v in list(env.auto.items())[:12]})[:300],
                         T.show(lhs, 60)[:300], T.show(rhs, 60)[:300]), sat=True)
        else:
            self.rec(name, "undecided", "ring normal form", time.time() - t,
                     "difference did not normalise to 0: %s" % T.show(d, 100)[:600])
        return False

    def eqs(self, name, pairs, **kw):
        """a family of equalities counted as one obligation each (name[i])."""
        ok = True
        for i, (a, b) in enumerate(pairs):
            ok = self.eq("%s[%s]" % (name, i), a, b, **kw) and ok
        return ok

    def true(self, name, cond, backend="evaluation", detail=""):
        t = time.time()
        self.rec(name, "proved" if cond else "refuted", backend, time.time() - t, detail, sat=not cond and any(True for _ in self.envs([], 1)))
        return bool(cond)

    def struct(self, name, cond, detail=""):
        """a precondition of the proof about the shape of the code; failing it decides nothing"""
        self.rec(name, "proved" if cond else "undecided", "evaluation", 0.0, detail)
        return bool(cond)

    def streams(self, name, keys):
        """pairwise independence of random keys: refuted when two are equal or one was split into the other, undecided when unknown"""
        from . import rng
        bad = unk = None
        for i, a in enumerate(keys):
            for b in keys[:i]:
                if rng.independent(a, b):
                    continue
                if rng.reused(a, b):
                    bad = (a, b)
                else:
                    unk = (a, b)
        x = bad or unk
        self.rec(name, "refuted" if bad else "undecided" if unk else "proved", "constructor algebra", 0.0, "" if not x else "keys %s and %s" % (T.show(x[0], 300), T.show(x[1], 300)))

    def undecided(self, name, why):
        self.rec(name, "undecided", "-", 0.0, why)

    def smt(self, name, claim, hyps=(), backend="z3", timeout=20000, cross=True, abstract=False):
        """z3 validity of claim under hyps (z3 formulas)."""
        import z3
        t = time.time()
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*hyps)
        s.add(z3.Not(claim))
        r = s.check()
        used = "z3"
        if r == z3.unknown or (cross and r == z3.unsat):
            r2 = cvc5_check(s.to_smt2(), timeout)
            if r2 == "unsat":
                used = "cvc5" if r == z3.unknown else "z3+cvc5"
                r = z3.unsat
            elif r2 == "sat" and r == z3.unsat:
                self.rec(name, "undecided", "z3/cvc5 disagree", time.time() - t)
                return False
            elif r2 == "sat":
                r = z3.sat
        logic.STAT["queries"] += 1
        logic.STAT["time"] += time.time() - t
        if r == z3.unsat:
            self.rec(name, "proved", used, time.time() - t)
            return True
        if r == z3.sat:
            try:
                m = str(s.model())
            except Exception:
                m = "(model from cvc5)"
            self.rec(name, "undecided" if abstract else "refuted", used, time.time() - t, ("(over-approximated) " if abstract else "") + "counter-model: " + m.replace("\n", " ")[:800])
            return False
        self.rec(name, "undecided", "z3+cvc5", time.time() - t, "unknown/timeout")
        return False

    def smt_term(self, name, kind, p, conds=(), timeout=20000):
        """claim (kind, Poly) e.g. ("le", p): p<=0, for all integer/real values, under 0/1-valued path conditions."""
        import z3
        conds = list(conds) + list(self.conds())
        enc = logic.Enc()
        enc.prep([p] + list(conds) + [f for _, f in logic.FACTS])
        x = enc.poly(p)
        cs = []
        for c in conds:
            e = enc.poly(c)
            if e is not None:
                cs.append(e == 1)
        for k, f in logic.FACTS:
            e = enc.poly(f)
            if e is not None:
                cs.append({"lt": e < 0, "le": e <= 0, "eq": e == 0, "ne": e != 0}[k])
        if x is None:
            self.undecided(name, "not expressible in SMT")
            return False
        claim = {"lt": x < 0, "le": x <= 0, "eq": x == 0, "ne": x != 0}[kind]
        return self.smt(name, claim, cs + enc.side, timeout=timeout, abstract=enc.abstract)

    def smt_poly(self, name, claims, conds=(), timeout=20000):
        """disjunction of polynomial (in)equalities over reals/integers, under 0/1-valued path conditions."""
        import z3
        conds = list(conds) + list(self.conds())
        enc = logic.Enc()
        enc.prep([p for _, p in claims] + list(conds) + [f for _, f in logic.FACTS])
        OPS = {"lt": lambda x: x < 0, "le": lambda x: x <= 0, "eq": lambda x: x == 0, "ne": lambda x: x != 0}
        xs = [(k, enc.poly(p)) for k, p in claims]
        if any(x is None for _, x in xs):
            self.undecided(name, "not expressible in SMT")
            return False
        cs = []
        for c in conds:
            e = enc.poly(c)
            if e is not None:
                cs.append(e == 1)
        for k, f in logic.FACTS:
            e = enc.poly(f)
            if e is not None:
                cs.append(OPS[k](e))
        return self.smt(name, z3.Or(*[OPS[k](x) for k, x in xs]), cs + enc.side, timeout=timeout, abstract=enc.abstract)


def nested_finite(p):
    """finite-domain atoms that occur inside arguments of functions (not under a binder)"""
    out = {}
    seen = set()

    def walk(p, nested):
        for i in p.atoms():
            if (i, nested) in seen:
                continue
            seen.add((i, nested))
            a = T._atoms[i]
            if a.kind in ("cmp", "bool"):
                if nested:
                    out.setdefault(("cmp", i), set()).add(i)
            elif a.kind == "ind":
                if nested:
                    out.setdefault(("ind",) + a.data[:2], set()).add(i)
                for x in a.data[1]:
                    walk(x, True)
            elif a.kind == "app":
                for x in a.data[1]:
                    walk(x, True)
            elif a.kind in ("exp", "log", "pbase"):
                walk(a.data, True)
            elif a.kind == "conj":
                b = a.data
                if b.kind in ("app",):
                    for x in b.data[1]:
                        walk(x, True)
    walk(p, False)
    return out


def split_zero(d, depth=10, fuel=None):
    """is d zero under every value of the finite-domain atoms nested in it? (exhaustive case split)"""
    fuel = fuel if fuel is not None else [400]
    if T.is_zero(d):
        return True
    if depth == 0 or fuel[0] <= 0:
        return False
    fuel[0] -= 1
    g = nested_finite(d)
    if not g:
        return False
    # boolean conditions first, then innermost atoms first
    key = min(g, key=lambda k: (k[0] != "cmp", len(nested_finite(lift(T._atoms[next(iter(g[k]))]))), k[1] if k[0] == "cmp" else 0))
    ids = g[key]
    if key[0] == "cmp":
        cases = [{i: v for i in ids} for v in (ONE, T.ZERO)]
    else:
        n = T.FUNS[key[1]]["dom"]
        allids = {i for i in _all_ind(d, key)} | ids
        cases = [{i: (ONE if T._atoms[i].data[2] == k else T.ZERO) for i in allids} for k in range(n)]
    for c in cases:
        r = sym.replace_atoms(d, c)
        if r == d:
            return False
        if not split_zero(r, depth - 1, fuel):
            return False
    return True


def _all_ind(d, key):
    out = set()
    for k, ids in list(nested_finite(d).items()):
        if k == key:
            out |= ids
    for i in d.atoms():
        a = T._atoms[i]
        if a.kind == "ind" and ("ind",) + a.data[:2] == key:
            out.add(i)
    return out


def assign(env, polys, s, vals=None):
    """values for dims and bounded index variables."""
    rnd = random.Random(77 + s)
    names = {}
    stack = []
    for v in (vals or {}):
        env.vals[v] = vals[v](rnd) if callable(vals[v]) else vals[v]
    # free variables
    fvs = set()
    for p in polys:
        fvs |= set(p.fv)
    todo = [T._atoms[i] for i in fvs]

    def setv(a):
        if a.data in env.vals:
            return env.vals[a.data]
        if a.id in logic.BOUNDS:
            lo, hi = logic.BOUNDS[a.id]
            for i in hi.fv:
                setv(T._atoms[i])
            n = int(round(T.neval_real(hi, env)))
            env.vals[a.data] = rnd.randrange(n) if n > 0 else 0
        elif a.int:
            env.vals[a.data] = rnd.randrange(2, 5)
        elif a.pos:
            env.vals[a.data] = rnd.uniform(0.3, 1.7)
        elif a.real:
            env.vals[a.data] = rnd.uniform(-1.3, 1.3)
        else:
            env.vals[a.data] = complex(rnd.uniform(-1, 1), rnd.uniform(-1, 1))
        return env.vals[a.data]
    for a in todo:
        setv(a)


def cvc5_check(smt2, timeout):
    try:
        import cvc5
    except ImportError:
        p = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
        sys.path.append(p)
        try:
            import cvc5
        except Exception:
            return "unknown"
        finally:
            sys.path.remove(p)
    try:
        import subprocess, tempfile
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + "\n".join(l for l in smt2.splitlines() if not l.startswith("(set-info") and not l.startswith("; ")))
            fn = f.name
        try:
            r = subprocess.run(["cvc5", "--tlimit=%d" % timeout, fn], capture_output=True, text=True, timeout=timeout / 1000 + 10)
        finally:
            os.unlink(fn)
        o = r.stdout.strip().splitlines()
        return o[0] if o and o[0] in ("sat", "unsat") else "unknown"
    except Exception:
        return "unknown"


class Block:
    def __init__(self, C, name, functions, limit):
        self.C, self.name, self.functions, self.limit = C, name, functions, limit

    def __enter__(self):
        C = self.C
        self.outer = C.cur
        self.no = C.entered
        C.entered += 1
        prefix = []
        self.skip = C.only is not None and C.only[0] != self.no
        if self.skip:
            # re-execution for another branch of another block: leave this one out
            sys.settrace(lambda *a: None)
            sys._getframe(1).f_trace = self._leave
            return self
        if C.only is not None:
            prefix = C.only[1]
            self.name += " [branch %s]" % "".join(str(x) for x in prefix)
        C.cur = self.name
        self.n0 = len(C.obs)
        self.t = time.time()
        logic.clear()
        cm = load()._comm if JV is not None else None
        if cm is not None:
            logic.bound_var(cm.rvar, cm.R)
        T.set_budget(4_000_000)
        sym.PATH.reset(prefix)
        sym.PATH.exploring = 0
        self.sess = sym.session()
        self.sess.__enter__()

        def alarm(*a):
            raise TimeUp("time limit of block")
        self.old = signal.signal(signal.SIGALRM, alarm)
        signal.alarm(self.limit)
        return self

    def _leave(self, frame, event, arg):
        sys.settrace(None)
        frame.f_trace = None
        raise SkipBlock()

    def __exit__(self, et, ev, tb):
        if self.skip:
            sys.settrace(None)
            self.C.cur = self.outer
            return et is None or issubclass(et, SkipBlock)
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)
        C = self.C
        try:
            self.sess.__exit__(None, None, None)
        except BaseException:
            pass
        if et is not None and issubclass(et, KeyboardInterrupt):
            return False
        if et is not None:
            C.cur = self.name
            C.rec("precondition" if issubclass(et, Violated) else "(execution)", "refuted" if issubclass(et, Violated) else "undecided", "-", time.time() - self.t,
                  "%s: %s | %s" % (et.__name__, ev, " <- ".join(
                      "%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(traceback.extract_tb(tb)[-6:]))))
            if os.environ.get("VP_DEBUG"):
                traceback.print_exception(et, ev, tb)
        elif len(C.obs) == self.n0:
            C.rec("(vacuous)", "undecided", "-", 0, "block generated no obligation")
        else:
            C.fn(*self.functions)
        # branches of the code on symbolic values that this execution did not take
        tr = sym.PATH.trail
        n0 = len(C.only[1]) if C.only is not None else 0
        for k in range(n0, len(tr)):
            for c in range(tr[k][0] + 1, tr[k][1]):
                C.pending.append((self.no, [x[0] for x in tr[:k]] + [c]))
        sym.PATH.reset([])
        C.blocks.append(dict(name=self.name, wall=round(time.time() - self.t, 2), obligations=len(C.obs) - self.n0))
        C.cur = self.outer
        C.flush()
        return True


# ------------------------------------------------------------------ host integers
class SymBool:
    def __init__(self, p):
        self.p = p

    def __bool__(self):
        return sym.PATH.decide(self.p)

    def __add__(self, o):
        return SymInt(self.p) + o

    __radd__ = __add__

    def __mul__(self, o):
        return SymInt(self.p) * o

    __rmul__ = __mul__

    def __rsub__(self, o):
        return SymInt(_ip(o) - self.p)

    def __int__(self):
        return sym.PATH.concretize(self.p)


def _ip(o):
    if isinstance(o, SymInt):
        return o.p
    if isinstance(o, SymBool):
        return o.p
    if isinstance(o, (bool, int, np.integer)):
        return lift(int(o))
    if isinstance(o, SymTracer):
        return o._scalar()
    raise Unsupported("host integer op with %r" % type(o))


def _fl(f):
    def g(a, b):
        if isinstance(b, (float, np.floating)) or isinstance(b, SymFloat):
            raise Unsupported("host float arithmetic on symbolic integers")
        return f(a, b)
    return g


class SymFloat:
    pass


class SymInt:
    """Python int of arbitrary size (mathematical), symbolic."""

    def __init__(self, p):
        self.p = lift(p)

    __add__ = __radd__ = lambda s, o: SymInt(s.p + _ip(o))
    __mul__ = __rmul__ = lambda s, o: SymInt(s.p * _ip(o))
    __sub__ = lambda s, o: SymInt(s.p - _ip(o))
    __rsub__ = lambda s, o: SymInt(_ip(o) - s.p)
    __neg__ = lambda s: SymInt(-s.p)
    __pos__ = lambda s: s
    __floordiv__ = lambda s, o: SymInt(T.floordiv(s.p, _ip(o)))
    __rfloordiv__ = lambda s, o: SymInt(T.floordiv(_ip(o), s.p))
    __mod__ = lambda s, o: SymInt(T.mod(s.p, _ip(o)))
    __rmod__ = lambda s, o: SymInt(T.mod(_ip(o), s.p))
    __divmod__ = lambda s, o: (s // o, s % o)
    __rdivmod__ = lambda s, o: (o // s, o % s)
    __lt__ = lambda s, o: SymBool(T.lt0(s.p - _ip(o)))
    __gt__ = lambda s, o: SymBool(T.lt0(_ip(o) - s.p))
    __ge__ = lambda s, o: SymBool(ONE - T.lt0(s.p - _ip(o)))
    __le__ = lambda s, o: SymBool(ONE - T.lt0(_ip(o) - s.p))
    __eq__ = lambda s, o: SymBool(T.eq0(s.p - _ip(o)))
    __ne__ = lambda s, o: SymBool(ONE - T.eq0(s.p - _ip(o)))
    __hash__ = lambda s: hash(s.p)
    __bool__ = lambda s: sym.PATH.decide(ONE - T.eq0(s.p))

    def __int__(self):
        return sym.PATH.concretize(self.p)

    __index__ = __int__

    def __truediv__(self, o):
        raise Unsupported("true division of a symbolic integer")

    def __rtruediv__(self, o):
        raise Unsupported("true division by a symbolic integer")


_old_sym_int = sym_int


def sym_int(x=0, *a):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return SymInt(x.p)
    return _old_sym_int(x, *a)


def sym_min(*xs, **k):
    xs = xs[0] if len(xs) == 1 else xs
    if any(isinstance(x, (SymInt, SymTracer)) for x in xs):
        r = xs[0]
        for x in xs[1:]:
            r = SymInt(T.ite(T.lt0(_ip(x) - _ip(r)), _ip(x), _ip(r)))
        return r
    return min(xs, **k)


def sym_max(*xs, **k):
    xs = xs[0] if len(xs) == 1 else xs
    if any(isinstance(x, (SymInt, SymTracer)) for x in xs):
        r = xs[0]
        for x in xs[1:]:
            r = SymInt(T.ite(T.lt0(_ip(r) - _ip(x)), _ip(x), _ip(r)))
        return r
    return max(xs, **k)


class patched:
    """temporarily set attributes of real modules/objects (stand-ins for the environment)."""

    def __init__(self, *triples):
        self.t = triples

    def __enter__(self):
        self.old = []
        for o, k, v in self.t:
            self.old.append((o, k, o.__dict__.get(k, patched) if hasattr(o, "__dict__") else getattr(o, k)))
            setattr(o, k, v)

    def __exit__(self, *e):
        for o, k, v in reversed(self.old):
            if v is patched:
                delattr(o, k)
            else:
                setattr(o, k, v)


HOST = dict(int=SymIntType, min=sym_min, max=sym_max)


def eq_int(C, name, lhs, rhs, conds=(), timeout=20000):
    """integer identity under path conditions: ring normal form, else z3/cvc5."""
    t = time.time()
    lhs, rhs = lift(lhs), lift(rhs)
    fixed = {}
    for c in conds:
        p = sym.Path()
        p._assume(c)
        fixed.update(p.fixed)
    l2, r2 = sym.replace_atoms(lhs, fixed), sym.replace_atoms(rhs, fixed)
    if T.is_zero(l2 - r2):
        C.rec(name, "proved", "ring normal form", time.time() - t)
        return True
    return C.smt_term(name, "eq", lhs - rhs, conds, timeout)
