"""Back end 2: SMT (z3, cross-checked by cvc5 where asked).  Integer/real order facts, path feasibility."""
import sys, time
_P = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3
except ImportError:
    sys.path.append(_P)
    import z3
    sys.path.remove(_P)
from . import terms as T
from .terms import Poly, lift, ZERO, ONE, Q

BOUNDS = {}      # var atom id -> (lo Poly, hi Poly exclusive)
FACTS = []       # list of (kind, Poly): "lt" p<0, "le" p<=0, "eq" p==0
STAT = {"queries": 0, "time": 0.0}
TIMEOUT_MS = 400


def bound_var(v, n):
    BOUNDS[T.vid(v)] = (ZERO, n)


def clear():
    BOUNDS.clear()
    FACTS.clear()
    _cache.clear()


def fact(kind, p):
    FACTS.append((kind, p))
    _cache.clear()


class Enc:
    def __init__(self):
        self.m = {}
        self.side = []
        self.bvars = set()
        self.abstract = False      # True once some atom is over-approximated (a model is then not a refutation)
        self.steps = {}

    def prep(self, polys):
        """collect the fractional exponents of every atom so that b^(k*s) is encoded as (b^s)^k"""
        seen = set()

        def go(p):
            for m in p.d:
                for i, e in m:
                    if e != int(e):
                        e = abs(Q(e))
                        o = self.steps.get(i)
                        self.steps[i] = e if o is None or (o / e).denominator == 1 else o
                    if i not in seen:
                        seen.add(i)
                        a = T._atoms[i]
                        if a.kind == "cmp":
                            go(a.data[1])
                        elif a.kind == "fdiv":
                            go(a.data[0])
                            go(a.data[1])
                        elif a.kind == "pbase":
                            go(a.data)
        for p in polys:
            go(p)

    def power(self, i, e):
        st = self.steps.get(i)
        a = T._atoms[i]
        self.abstract = True
        if st is None or (Q(e) / st).denominator != 1:
            st = abs(Q(e))
        b = z3.Real("pow_%d_%s" % (i, str(st).replace("/", "_")))
        if a.pos and ("pow", i, st) not in self.bvars:
            self.bvars.add(("pow", i, st))
            self.side.append(b > 0)
            base = self.atom(i)
            if base is not None:      # monotonicity against 1
                self.side.append((base >= 1) == (b >= 1))
        k = int(Q(e) / st)
        x = b
        for _ in range(abs(k) - 1):
            x = x * b
        return x if k > 0 else 1 / x

    def poly(self, p):
        tot = None
        isint = p.integer
        for m, c in p.d.items():
            if c[1] != 0:
                return None
            x = z3.IntVal(int(c[0])) if Q(c[0]).denominator == 1 else z3.RealVal(str(Q(c[0])))
            for i, e in m:
                a = self.atom(i)
                if a is None:
                    return None
                if e == int(e) and e > 0:
                    for _ in range(int(e)):
                        x = x * a if not (z3.is_int_value(x) and x.as_long() == 1) else a
                elif e == int(e) and e < 0:
                    for _ in range(-int(e)):
                        x = x / z3.ToReal(a) if z3.is_int(a) else x / a
                else:
                    x = x * self.power(i, e)
            tot = x if tot is None else tot + x
        return z3.IntVal(0) if tot is None else tot

    def atom(self, i):
        if i in self.m:
            return self.m[i]
        a = T._atoms[i]
        if not a.real:
            return None
        k = a.kind
        if k == "cmp":
            x = self.poly(a.data[1])
            if x is None:
                return None
            r = z3.If(x < 0 if a.data[0] == "lt" else x == 0, z3.IntVal(1), z3.IntVal(0))
        elif k == "fdiv":
            n, d = self.poly(a.data[0]), self.poly(a.data[1])
            if n is None or d is None:
                return None
            r = z3.Int("q_%d" % i)
            # definition valid for positive divisor
            self.side.append(z3.Implies(d > 0, z3.And(r * d <= n, n < (r + 1) * d)))
        elif k == "prime":
            r = z3.IntVal(a.data)
        else:
            if k not in ("var", "ind") and not (k == "app" and all(not x.fv for x in a.data[1])):
                self.abstract = True
            r = (z3.Int if a.int else z3.Real)("a_%d" % i)
            if a.idem:
                self.side.append(z3.And(r >= 0, r <= 1))
            elif a.pos:
                self.side.append(r >= 1 if a.int else r > 0)
            elif a.nonneg:
                self.side.append(r >= 0)
            if k == "ind":
                # exclusivity among seen siblings
                for j in list(self.m):
                    b = T._atoms[j]
                    if b.kind == "ind" and b.data[:2] == a.data[:2] and j != i:
                        self.side.append(self.m[j] + r <= 1)
        self.m[i] = r
        if i in BOUNDS:
            lo, hi = BOUNDS[i]
            l, h = self.poly(lo), self.poly(hi)
            if l is not None:
                self.side.append(r >= l)
            if h is not None:
                self.side.append(r < h)
        return r


_cache = {}


def check(forms, timeout=None):
    """forms: list of (kind, Poly). Is the conjunction satisfiable?  True/False/None"""
    enc = Enc()
    enc.prep([p for _, p in forms] + [p for _, p in FACTS])
    s = z3.Solver()
    s.set("timeout", timeout or TIMEOUT_MS)
    cs = []
    for k, p in list(forms):
        x = enc.poly(p)
        if x is None:
            continue
        cs.append({"lt": x < 0, "le": x <= 0, "eq": x == 0, "ne": x != 0}[k])
    fs = []
    for k, p in FACTS:
        x = enc.poly(p)
        if x is not None:
            fs.append({"lt": x < 0, "le": x <= 0, "eq": x == 0, "ne": x != 0}[k])
    s.add(*cs, *fs, *enc.side)
    t = time.time()
    r = s.check()
    STAT["queries"] += 1
    STAT["time"] += time.time() - t
    if r == z3.sat:
        return True
    if r == z3.unsat:
        return False
    return None


class ZOracle(T.Oracle):
    on = True

    def lt(self, p):
        if not self.on or not self._ok(p):
            return None
        key = ("lt", p)
        if key in _cache:
            return _cache[key]
        _cache[key] = None
        r = None
        if check([("le", -p)]) is False:      # p>=0 unsat -> p<0
            r = True
        elif check([("lt", p)]) is False:
            r = False
        _cache[key] = r
        return r

    def eq(self, p):
        if not self.on or not p.real or not self._ok(p):
            return None
        key = ("eq", p)
        if key in _cache:
            return _cache[key]
        _cache[key] = None
        r = None
        if check([("eq", p)]) is False:
            r = False
        elif check([("ne", p)]) is False:
            r = True
        _cache[key] = r
        return r

    def _ok(self, p):
        # only bother the solver for integer facts with known bounds/facts, or when real facts are declared
        if p.integer:
            return True
        return REAL_ORACLE[0]


REAL_ORACLE = [False]
T.oracle = ZOracle()


def feasible(conds):
    """conds: 0/1 valued Polys required to be 1. Returns False only if provably infeasible."""
    return check([("eq", c - 1) for c in conds]) is not False
