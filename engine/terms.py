"""Symbolic scalar terms: polynomials with Gaussian-rational coefficients over hash-consed atoms.

Back end 1 of the verifier ("ring"): every term is kept in a normal form, so that an equality
obligation is discharged by clearing denominators and checking that the difference is the zero
polynomial.  Atoms cover uninterpreted applications, finite-domain indicators, conjugates,
exp/log, (rational) powers of polynomials, big sums with symbolic extent, floor division and
Iverson brackets of comparisons.
"""
import itertools, math
from fractions import Fraction

Q = Fraction
# ------------------------------------------------------------------ coefficients
# coefficient = (re, im) of int/Fraction

def q(x):
    """python number -> exact rational (floats are read as the closest simple rational)."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return int(x) if x.denominator == 1 else x
    x = float(x)
    if x == int(x) if math.isfinite(x) else False:
        return int(x)
    f = Fraction(x)
    g = f.limit_denominator(100000)
    if abs(float(g) - x) <= 4e-16 * abs(x):
        return g
    import decimal
    g = Fraction(repr(x))
    return g


def cmul(a, b):
    if a[1] == 0 and b[1] == 0:
        return (a[0] * b[0], 0)
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cadd(a, b):
    return (a[0] + b[0], a[1] + b[1])


def cinv(a):
    d = a[0] * a[0] + a[1] * a[1]
    return (Q(a[0]) / d, -Q(a[1]) / d)


# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ("id", "kind", "data", "real", "int", "pos", "idem", "fv", "lvl", "nonneg", "dom")

    def __repr__(self):
        return show_atom(self)


_atoms = []
_table = {}


def intern(kind, data, real=True, int_=False, pos=False, idem=False, nonneg=False, fv=frozenset(), lvl=0, dom=None):
    key = (kind, data)
    a = _table.get(key)
    if a is not None:
        return a
    a = Atom()
    a.id = len(_atoms)
    a.kind, a.data = kind, data
    a.real, a.int, a.pos, a.idem, a.nonneg, a.fv, a.lvl, a.dom = real, int_, pos, idem, nonneg or pos or idem, fv, lvl, dom
    _atoms.append(a)
    _table[key] = a
    return a


class Poly:
    __slots__ = ("d", "_h", "_fv", "_lvl")

    def __init__(self, d):
        self.d = d
        self._h = None
        self._fv = None
        self._lvl = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def __ne__(self, o):
        return not self == o

    @property
    def fv(self):
        if self._fv is None:
            s = set()
            for m in self.d:
                for i, e in m:
                    s |= _atoms[i].fv
            self._fv = frozenset(s)
        return self._fv

    @property
    def lvl(self):
        if self._lvl is None:
            l = 0
            for m in self.d:
                for i, e in m:
                    l = max(l, _atoms[i].lvl)
            self._lvl = l
        return self._lvl

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def const(self):
        return self.d.get((), (0, 0))

    def is_zero(self):
        return not self.d

    def is_int_const(self):
        if not self.is_const():
            return False
        c = self.const()
        return c[1] == 0 and Q(c[0]).denominator == 1

    def as_int(self):
        assert self.is_int_const(), self
        return int(self.const()[0])

    def atoms(self):
        s = set()
        for m in self.d:
            for i, e in m:
                s.add(i)
        return s

    @property
    def real(self):
        for m, c in self.d.items():
            if c[1] != 0:
                return False
            for i, e in m:
                if not _atoms[i].real:
                    return False
        return True

    @property
    def integer(self):
        for m, c in self.d.items():
            if c[1] != 0 or Q(c[0]).denominator != 1:
                return False
            for i, e in m:
                if not _atoms[i].int or e != int(e) or e < 0:
                    return False
        return True

    # arithmetic
    def __add__(self, o):
        o = lift(o)
        if not self.d:
            return o
        if not o.d:
            return self
        a, b = (self.d, o.d) if len(self.d) >= len(o.d) else (o.d, self.d)
        r = dict(a)
        for m, c in b.items():
            x = r.get(m)
            if x is None:
                r[m] = c
            else:
                y = (x[0] + c[0], x[1] + c[1])
                if y == (0, 0):
                    del r[m]
                else:
                    r[m] = y
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: (-c[0], -c[1]) for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) + (-self)

    def __mul__(self, o):
        o = lift(o)
        if not self.d or not o.d:
            return ZERO
        if o.is_const():
            c = o.const()
            if c == (1, 0):
                return self
            return Poly({m: cmul(x, c) for m, x in self.d.items()})
        if self.is_const():
            return o * self
        budget(len(self.d) * len(o.d))
        r = {}
        extra = None
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                t = mmul(m1, m2)
                c = cmul(c1, c2)
                if t is None:
                    continue
                if isinstance(t, Poly):
                    t = t * Poly({(): c})
                    extra = t if extra is None else extra + t
                    continue
                x = r.get(t)
                if x is None:
                    r[t] = c
                else:
                    y = (x[0] + c[0], x[1] + c[1])
                    if y == (0, 0):
                        del r[t]
                    else:
                        r[t] = y
        p = Poly(r)
        return p if extra is None else p + extra

    __rmul__ = __mul__

    def __pow__(self, n):
        if isinstance(n, int) and n >= 0:
            r = ONE
            b = self
            while n:
                if n & 1:
                    r = r * b
                n >>= 1
                if n:
                    b = b * b
            return r
        return ppow(self, q(n))

    def __truediv__(self, o):
        return self * inv(lift(o))

    def __rtruediv__(self, o):
        return lift(o) * inv(self)

    def __floordiv__(self, o):
        return floordiv(self, lift(o))

    def __mod__(self, o):
        return mod(self, lift(o))

    def __rfloordiv__(self, o):
        return floordiv(lift(o), self)

    def __rmod__(self, o):
        return mod(lift(o), self)

    def __repr__(self):
        return show(self)


class Budget(Exception):
    pass


_budget = [None]
MAXTERMS = 4_000_000


def budget(n):
    if n > MAXTERMS:
        raise Budget("polynomial product too large (%d)" % n)
    if _budget[0] is not None:
        _budget[0] -= n
        if _budget[0] < 0:
            raise Budget("term budget exhausted")


def set_budget(n):
    _budget[0] = n


ZERO = Poly({})
ONE = Poly({(): (1, 0)})
IMAG = Poly({(): (0, 1)})


def lift(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly({((x.id, 1),): (1, 0)})
    if isinstance(x, (bool, int, Fraction)):
        return Poly({(): (q(x), 0)}) if x != 0 else ZERO
    if isinstance(x, complex):
        return lift(x.real) + lift(x.imag) * IMAG
    if isinstance(x, float):
        return const_float(x)
    import numpy as np
    if isinstance(x, np.generic):
        return lift(x.item())
    raise TypeError("cannot lift %r" % (x,))


_floatcache = {}


def const_float(x):
    r = _floatcache.get(x)
    if r is None:
        r = _floatcache[x] = _const_float(x)
    return r


def _const_float(x):
    if math.isinf(x):
        return INF() if x > 0 else -INF()
    if math.isnan(x):
        return lift(intern("special", repr(x)))
    f = Fraction(x).limit_denominator(20000)
    if abs(float(f) - x) <= 4e-16 * abs(x):
        return Poly({(): (q(f), 0)}) if f != 0 else ZERO
    # algebraic recogniser: +-sqrt(p/q); pi multiples
    f2 = Fraction(x * x).limit_denominator(5000)
    if f2 != 0 and abs(float(f2) - x * x) <= 6e-16 * x * x and f2.numerator < 5000:
        r = ppow(lift(f2), Q(1, 2))
        return r if x > 0 else -r
    fp = Fraction(x / math.pi).limit_denominator(360)
    if fp != 0 and abs(float(fp) * math.pi - x) <= 4e-16 * abs(x) and abs(fp.numerator) < 1000:
        return lift(PI()) * lift(fp)
    fl = Fraction(x / math.log(2)).limit_denominator(60)
    if fl != 0 and abs(float(fl) * math.log(2) - x) <= 4e-16 * abs(x) and abs(fl.numerator) < 100:
        return log(lift(2)) * lift(fl)
    return Poly({(): (q(x), 0)})


def INF():
    return lift(intern("special", "inf", pos=True))


def has_inf(p):
    """the infinite constant occurs in the polynomial"""
    i = intern("special", "inf", pos=True).id
    return any(j == i for m in p.d for j, e in m)


def inf_sign(p):
    """sign of p when it contains the infinite constant with a constant coefficient and is finite otherwise, else None
    (all other terms stand for finite numbers)"""
    i = intern("special", "inf", pos=True).id
    s = None
    for m, c in p.d.items():
        if any(a == i for a, e in m):
            if m != ((i, 1),) or c[1] != 0:
                return None
            s = 1 if c[0] > 0 else -1
    return s


def PI():
    return intern("special", "pi", pos=True)


def mmul(m1, m2):
    """product of monomials: monomial tuple, None (zero) or Poly when expansion is needed."""
    if not m1:
        return m2
    if not m2:
        return m1
    r = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    special = None
    while i < n1 and j < n2:
        a, ea = m1[i]
        b, eb = m2[j]
        if a < b:
            r.append((a, ea)); i += 1
        elif a > b:
            r.append((b, eb)); j += 1
        else:
            e = ea + eb
            i += 1; j += 1
            at = _atoms[a]
            if at.idem:
                r.append((a, 1))
                continue
            if e == 0:
                continue
            if at.kind == "pbase":
                if e > 0 and e >= 1:
                    k = math.floor(e)
                    if special is None:
                        special = []
                    special.append((a, k))
                    e = e - k
                    if e == 0:
                        continue
                elif e <= -1 and len(at.data.d) == 1:
                    k = math.ceil(e)
                    if special is None:
                        special = []
                    special.append((a, k))
                    e = e - k
                    if e == 0:
                        continue
                if isinstance(e, Fraction) and e.denominator == 1:
                    e = int(e)
                r.append((a, e))
                continue
            if at.kind == "prime":
                k = math.floor(e)
                if k != 0:
                    if special is None:
                        special = []
                    special.append((a, k))
                e = e - k
                if e == 0:
                    continue
                r.append((a, e))
                continue
            if isinstance(e, Fraction) and e.denominator == 1:
                e = int(e)
            r.append((a, e))
    r.extend(m1[i:]); r.extend(m2[j:])
    t = tuple(r)
    # mutually exclusive indicators
    inds = None
    eqs = None
    for a, e in t:
        at = _atoms[a]
        if at.kind == "ind":
            key = at.data[:2]
            if inds is None:
                inds = {}
            k = inds.get(key)
            if k is not None and k != at.data[2]:
                return None
            inds[key] = at.data[2]
        elif at.kind == "cmp" and at.data[0] == "eq":
            if eqs is None:
                eqs = {}
            p = at.data[1]
            c = p.const()
            base = p - Poly({(): c}) if c != (0, 0) else p
            k = eqs.get(base)
            if k is not None and k != c:
                return None
            eqs[base] = c
    if special is not None:
        p = Poly({t: (1, 0)})
        for a, k in special:
            at = _atoms[a]
            if at.kind == "prime":
                p = p * Poly({(): (q(Q(at.data) ** k), 0)})
            else:
                p = p * (at.data ** k)
        return p
    return t


# ------------------------------------------------------------------ constructors
def var(name, int_=False, pos=False, real=True, nonneg=False):
    key = ("var", name)
    a = _table.get(key)
    if a is None:
        a = intern("var", name, real=real, int_=int_, pos=pos, nonneg=nonneg)
        a.fv = frozenset([a.id])
    return lift(a)


_fresh = itertools.count()


def fresh(name="i", int_=True, nonneg=True):
    return var("%s#%d" % (name, next(_fresh)), int_=int_, nonneg=nonneg)


FUNS = {}


def declare(name, real=True, int_=False, pos=False, dom=None, nonneg=False, eval=None):
    FUNS[name] = dict(real=real, int_=int_, pos=pos, dom=dom, nonneg=nonneg, eval=eval)


def app(name, *args):
    """uninterpreted application; finite-domain ones expand in the indicator basis."""
    args = tuple(lift(a) for a in args)
    f = FUNS.get(name) or {}
    fv = frozenset().union(*[a.fv for a in args]) if args else frozenset()
    lvl = max([a.lvl for a in args], default=0)
    dom = f.get("dom")
    if dom is not None:
        if dom == 1:
            return ZERO
        r = ZERO
        for k in range(1, dom):
            a = intern("ind", (name, args, k), int_=True, idem=True, fv=fv, lvl=lvl)
            r = r + lift(a) * k
        return r
    a = intern("app", (name, args), real=f.get("real", True), int_=f.get("int_", False), pos=f.get("pos", False),
               nonneg=f.get("nonneg", False), fv=fv, lvl=lvl)
    return lift(a)


def ind(name, args, k):
    """indicator [name(args)==k] of a finite-domain application."""
    dom = FUNS[name]["dom"]
    args = tuple(lift(a) for a in args)
    fv = frozenset().union(*[a.fv for a in args]) if args else frozenset()
    lvl = max([a.lvl for a in args], default=0)
    if k == 0:
        r = ONE
        for j in range(1, dom):
            r = r - lift(intern("ind", (name, args, j), int_=True, idem=True, fv=fv, lvl=lvl))
        return r
    if k < 0 or k >= dom:
        return ZERO
    return lift(intern("ind", (name, args, k), int_=True, idem=True, fv=fv, lvl=lvl))


def conj(p):
    if p.real:
        return p
    out = ZERO
    for m, c in p.d.items():
        t = Poly({(): (c[0], -c[1])})
        for i, e in m:
            t = t * powatom(conj_atom(_atoms[i]), e)
        out = out + t
    return out


def powatom(p, e):
    """p: Poly that is a single atom (coefficient 1) or general; raise to exponent e."""
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == (1, 0) and len(m) == 1 and m[0][1] == 1:
            a = _atoms[m[0][0]]
            if a.idem:
                return p
            return Poly({((a.id, e),): (1, 0)}) if e != 0 else ONE
    if isinstance(e, int) and e >= 0:
        return p ** e
    return ppow(p, e)


_conj = {}


def conj_atom(a):
    if a.real:
        return lift(a)
    r = _conj.get(a.id)
    if r is not None:
        return r
    k = a.kind
    if k == "conj":
        r = lift(a.data)
    elif k in ("app", "var"):
        b = intern("conj", a, real=False, fv=a.fv, lvl=a.lvl)
        r = lift(b)
    elif k == "exp":
        r = exp(conj(a.data))
    elif k == "log":
        r = log(conj(a.data))
    elif k == "pbase":
        r = pbase(conj(a.data))
    elif k == "sum":
        vs, body = open_sum(a)
        r = mk_sum(vs, conj(body))
    else:
        raise NotImplementedError("conj of " + k)
    _conj[a.id] = r
    return r


def re(p):
    if p.real:
        return p
    return (p + conj(p)) * Q(1, 2)


def im(p):
    if p.real:
        return ZERO
    return (p - conj(p)) * Poly({(): (0, Q(-1, 2))})


def pbase(p):
    """interned base atom for a polynomial (used with fractional/negative exponents)."""
    a = intern("pbase", p, real=p.real, pos=is_pos(p), nonneg=is_nonneg(p), fv=p.fv, lvl=p.lvl)
    return lift(a)


def is_pos(p):
    """sufficient syntactic test: p > 0."""
    if not p.d:
        return False
    for m, c in p.d.items():
        if c[1] != 0 or c[0] <= 0:
            return False
        if not mono_nonneg(m):
            return False
    return any(all(_atoms[i].pos for i, e in m) for m in p.d)


def mono_nonneg(m):
    z = {}
    for i, e in m:
        a = _atoms[i]
        if a.nonneg:
            continue
        if a.real:
            if e == int(e) and int(e) % 2 == 0:
                continue
            return False
        z[i] = e
    # complex atoms must pair with conjugates
    for i, e in z.items():
        cj = conj_atom(_atoms[i])
        (mm, c), = cj.d.items() if len(cj.d) == 1 else (((), None),)
        if len(mm) != 1 or z.get(mm[0][0]) != e:
            return False
    return True


def is_nonneg(p):
    for m, c in p.d.items():
        if c[1] != 0 or c[0] < 0 or not mono_nonneg(m):
            return False
    return True


def is_unit_atom(a):
    return a.pos or a.kind in ("exp", "prime")


def content(p):
    """p = c * m * p'  with p' primitive: returns (c, m(dict), p')"""
    ms = list(p.d.items())
    if len(ms) == 1:
        return ms[0][1], dict(ms[0][0]), ONE
    com = dict(ms[0][0])
    allat = set(com)
    for m, c in ms[1:]:
        allat |= {i for i, e in m}
    mins = {}
    for i in allat:
        es = []
        for m, c in ms:
            e = 0
            for j, x in m:
                if j == i:
                    e = x
            es.append(e)
        mn = min(es)
        if mn != 0 and not _atoms[i].idem:
            mins[i] = mn
    lead = min(p.d)
    c = p.d[lead]
    fac = mono_poly({i: -e for i, e in mins.items()}) * Poly({(): cinv(c)})
    pp = p * fac
    # leading coefficient after removal of the monomial may sit elsewhere: normalise by smallest monomial
    lead = min(pp.d)
    c2 = pp.d[lead]
    if c2 != (1, 0):
        pp = pp * Poly({(): cinv(c2)})
        c = cmul(c, c2)
    return c, mins, pp


def mono_poly(d):
    return Poly({tuple(sorted((i, e) for i, e in d.items() if e != 0)): (1, 0)})


def inv(p):
    return ppow(p, -1)


def prime_factor(n):
    f = {}
    d = 2
    while d * d <= n:
        while n % d == 0:
            f[d] = f.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        f[n] = f.get(n, 0) + 1
    return f


def rat_pow(c, e):
    """positive rational ** rational exponent."""
    c = Q(c)
    out = ONE
    for base, s in ((c.numerator, 1), (c.denominator, -1)):
        if base > 10**12:
            out = out * Poly({((pbase(lift(base)).atoms().pop(), s * e),): (1, 0)})
            continue
        for p_, k in prime_factor(base).items():
            x = Q(s * k) * e
            fl = math.floor(x)
            fr = x - fl
            t = Poly({(): (q(Q(p_) ** fl), 0)})
            if fr:
                t = t * Poly({((intern("prime", p_, pos=True).id, fr),): (1, 0)})
            out = out * t
    return out


class DivZero(Exception):
    pass


def ppow(p, e):
    e = q(e)
    if e == 0:
        return ONE
    if isinstance(e, int) and e > 0:
        return p ** e
    if not p.d:
        if e < 0:
            raise DivZero("division by zero")
        return ZERO
    if len(p.d) > 1:
        tab = tabulate(lambda v: _rat_or_none(v, e), [p])
        if tab is not None:
            return tab
    c, m, pp = content(p)
    out = ONE
    # coefficient
    if isinstance(e, int):
        cc = (1, 0)
        ci = cinv(c)
        for _ in range(-e):
            cc = cmul(cc, ci)
        out = Poly({(): (q(cc[0]), q(cc[1]))})
        for i, x in m.items():
            a = _atoms[i]
            if a.idem:
                # 1/[c]: not defined at 0; keep as base
                out = out * lift(intern("pbase", lift(a), real=True, fv=a.fv, lvl=a.lvl)) ** 1 if False else out * Poly({((intern("pbase", lift(a) , real=True, fv=a.fv, lvl=a.lvl).id, e),): (1, 0)})
            elif a.kind == "pbase" and x * e == int(x * e) and x != int(x):
                out = out * ppow(a.data, int(x * e))
            elif a.kind == "pbase" and x * e > 0 and x * e == int(x * e):
                out = out * a.data ** int(x * e)
            else:
                out = out * Poly({((i, q(x * e)),): (1, 0)})
        if pp != ONE:
            out = out * Poly({((pbase(pp).atoms().pop(), e),): (1, 0)})
        return out
    # fractional exponent
    rest = ONE
    sign = 1
    if c[1] == 0:
        out = rat_pow(abs(c[0]), e)
        if c[0] < 0:
            if (len(m) == 0 and pp != ONE) or any(not _atoms[i].nonneg for i in m) or pp != ONE:
                rest = rest * -1
            else:
                # negative real: principal value only for exponent 1/2
                if e == Q(1, 2):
                    out = out * IMAG
                else:
                    rest = rest * -1
    else:
        rest = rest * Poly({(): c})
    left = {}
    for i, x in m.items():
        a = _atoms[i]
        if a.nonneg and not a.idem:
            out = out * Poly({((i, q(x * e)),): (1, 0)})
        elif a.idem:
            if e > 0:
                out = out * lift(a)
            else:
                left[i] = x
        else:
            left[i] = x
    rest = rest * mono_poly(left) * pp
    if rest == ONE:
        return out
    if rest == -ONE and e == Q(1, 2):
        return out * IMAG
    # even powers of unsigned atoms stay inside the base: (x^2)^(1/2)
    return out * Poly({((pbase(rest).atoms().pop(), e),): (1, 0)})


def _rat_or_none(v, e):
    if isinstance(e, int):
        if v == 0:
            raise DivZero("division by zero in one case")
        return Q(1) / Q(v) ** (-e)
    return None


def sqrt(p):
    return ppow(p, Q(1, 2))


def pabs(p):
    if p.real and is_nonneg(p):
        return p
    if p.real and is_nonneg(-p):
        return -p
    if p.is_const() and p.real:
        return lift(abs(p.const()[0]))
    if p.real:
        tab = tabulate(lambda v: abs(v), [p])
        if tab is not None:
            return tab
    return sqrt(p * conj(p))


def exp(p):
    out = ONE
    for m, c in p.d.items():
        if not m:
            if c[1] == 0:
                # exp(const)
                out = out * expat(ONE, q(c[0]))
            else:
                if c[0] != 0:
                    out = out * expat(ONE, q(c[0]))
                out = out * expat(IMAG, q(c[1]))
            continue
        if len(m) == 1 and m[0][1] == 1 and _atoms[m[0][0]].kind == "log" and c[1] == 0:
            out = out * ppow(_atoms[m[0][0]].data, q(c[0]))
            continue
        base = Poly({m: (1, 0)})
        if c[0] != 0:
            out = out * expat(base, q(c[0]))
        if c[1] != 0:
            out = out * expat(base * IMAG, q(c[1]))
    return out


def expat(base, c):
    # exp(i*pi*c) special values
    if len(base.d) == 1:
        (m, k), = base.d.items()
        if k == (0, 1) and m == ((PI().id, 1),):
            x = Q(c) % 2
            tbl = {Q(0): ONE, Q(1, 2): IMAG, Q(1): -ONE, Q(3, 2): -IMAG}
            if x in tbl:
                return tbl[x]
            return cexp_pi(x)
    if base.real:
        # idempotent exponent: exp(c*[b]) = 1 + [b](exp(c)-1)
        (m, k), = base.d.items()
        if m and all(_atoms[i].idem for i, e in m):
            return ONE + base * (expat(ONE, c) - ONE)
    a = intern("exp", base, real=base.real, pos=base.real, fv=base.fv, lvl=base.lvl)
    return Poly({((a.id, c),): (1, 0)})


def cexp_pi(x):
    """exp(i pi x) for rational x in [0,2)"""
    x = Q(x)
    if x > 1:
        return conj(cexp_pi(2 - x))
    if x > Q(1, 2):
        r = cexp_pi(1 - x)
        return -conj(r)
    tbl = {Q(1, 3): (lift(Q(1, 2)), sqrt(lift(3)) * Q(1, 2)), Q(1, 6): (sqrt(lift(3)) * Q(1, 2), lift(Q(1, 2))),
           Q(1, 4): (sqrt(lift(2)) * Q(1, 2), sqrt(lift(2)) * Q(1, 2))}
    if x in tbl:
        a, b = tbl[x]
        return a + IMAG * b
    base = lift(PI()) * IMAG
    a = intern("exp", base, real=False, fv=frozenset(), lvl=0)
    return Poly({((a.id, q(x)),): (1, 0)})


def cos(p):
    e = exp(p * IMAG)
    return (e + exp(-(p * IMAG))) * Q(1, 2)


def sin(p):
    return (exp(p * IMAG) - exp(-(p * IMAG))) * Poly({(): (0, Q(-1, 2))})


def log(p):
    if not p.d:
        return -INF()
    if p == ONE:
        return ZERO
    if p.real or True:
        c, m, pp = content(p)
        out = ZERO
        left = {}
        for i, x in m.items():
            a = _atoms[i]
            if a.kind == "exp" and a.real:
                out = out + a.data * x
            elif a.pos:
                out = out + lift(intern("log", lift(a), fv=a.fv, lvl=a.lvl)) * x
            else:
                left[i] = x
        rest = mono_poly(left) * pp
        cc = c
        if cc[1] == 0 and cc[0] > 0:
            for p_, k in prime_factor(Q(cc[0]).numerator).items():
                out = out + lift(intern("log", lift(p_))) * k
            for p_, k in prime_factor(Q(cc[0]).denominator).items():
                out = out - lift(intern("log", lift(p_))) * k
        else:
            rest = rest * Poly({(): cc})
        if rest != ONE:
            out = out + lift(intern("log", rest, real=rest.real and is_pos(rest), fv=rest.fv, lvl=rest.lvl))
        return out


# ------------------------------------------------------------------ finite tabulation
TAB_LIMIT = 1024


def fin_vars(ps):
    """finite-domain variables (indicator groups / boolean atoms) of the given polys, or None."""
    groups = {}
    for p in ps:
        for i in p.atoms():
            a = _atoms[i]
            if a.kind == "ind":
                groups[("ind",) + a.data[:2]] = FUNS[a.data[0]]["dom"]
            elif a.kind == "cmp":
                groups[("cmp", a.id)] = 2
            elif a.kind == "bool":
                groups[("cmp", a.id)] = 2
            else:
                return None
    return groups


def assign_poly(p, env):
    """value of poly p under assignment group->k (all atoms finite)."""
    tot_r = 0
    tot_i = 0
    for m, c in p.d.items():
        ok = True
        for i, e in m:
            a = _atoms[i]
            if a.kind == "ind":
                if env[("ind",) + a.data[:2]] != a.data[2]:
                    ok = False
                    break
            else:
                if not env[("cmp", i)]:
                    ok = False
                    break
        if ok:
            tot_r += c[0]
            tot_i += c[1]
    return tot_r if tot_i == 0 else (tot_r, tot_i)


def group_ind(g, k):
    if g[0] == "ind":
        return ind(g[1], g[2], k)
    a = lift(_atoms[g[1]])
    return a if k else ONE - a


def tabulate(f, ps, limit=TAB_LIMIT):
    """f applied pointwise to finite-domain terms; returns Poly in the indicator basis or None."""
    groups = fin_vars(ps)
    if groups is None:
        return None
    n = 1
    for d in groups.values():
        n *= d
        if n > limit:
            return None
    keys = list(groups)
    out = ZERO
    for combo in itertools.product(*[range(groups[k]) for k in keys]):
        env = dict(zip(keys, combo))
        vals = [assign_poly(p, env) for p in ps]
        if any(isinstance(v, tuple) for v in vals):
            return None
        v = f(*vals)
        if v is None:
            return None
        if v == 0:
            continue
        t = lift(q(v) if isinstance(v, (int, float, Fraction, bool)) else v)
        for k, x in zip(keys, combo):
            t = t * group_ind(k, x)
        out = out + t
    return out


# ------------------------------------------------------------------ integers, comparisons
class Oracle:
    """decides sign/order facts of terms under the current assumptions (see logic.py)."""

    def lt(self, p):   # p < 0 ?  True / False / None
        return None

    def eq(self, p):
        return None


oracle = Oracle()


def floordiv(a, b):
    a, b = lift(a), lift(b)
    if b == ONE:
        return a
    if a.is_const() and b.is_const():
        if b.is_zero():
            raise DivZero("floor division by zero")
        return lift(math.floor(Q(a.const()[0]) / Q(b.const()[0])))
    if a.is_zero():
        return ZERO
    # pull out multiples of b
    quo, rem = div_multiple(a, b)
    if rem.is_zero():
        return quo
    if rem.is_const() and b.is_const():
        return quo + lift(math.floor(Q(rem.const()[0]) / Q(b.const()[0])))
    tab = tabulate(lambda *v: _fd(*v), [rem, b])
    if tab is not None:
        return quo + tab
    if oracle.lt(rem) is False and oracle.lt(rem - b) is True:
        return quo
    if b.is_int_const() and b.as_int() > 0 and len(rem.d) == 1:
        # floor(floor(x / a) / b) = floor(x / (a b)) for positive integers a, b
        ats = list(rem.atoms())
        if len(ats) == 1 and _atoms[ats[0]].kind == "fdiv" and rem == lift(_atoms[ats[0]]):
            x, a_ = _atoms[ats[0]].data
            if a_.is_int_const() and a_.as_int() > 0:
                return quo + floordiv(x, a_ * b)
    fv = rem.fv | b.fv
    return quo + lift(intern("fdiv", (rem, b), int_=True, fv=fv, lvl=max(rem.lvl, b.lvl),
                             nonneg=is_nonneg(rem) and is_nonneg(b)))


def _fd(x, y):
    if y == 0:
        raise DivZero("floordiv by zero")
    return math.floor(Q(x) / Q(y))


def div_multiple(a, b):
    """a = quo*b + rem syntactically (monomials divisible by b's single monomial, or integer multiples)."""
    if len(b.d) == 1:
        (mb, cb), = b.d.items()
        if cb[1] != 0:
            return ZERO, a
        quo, rem = {}, {}
        db = dict(mb)
        for m, c in a.d.items():
            dm = dict(m)
            ok = all(dm.get(i, 0) >= e for i, e in db.items())
            if ok:
                if c[1] == 0 and Q(c[0]) % Q(cb[0]) == 0:
                    mm = tuple(sorted((i, q(e - db.get(i, 0))) for i, e in dm.items() if e - db.get(i, 0) != 0))
                    # divisor must be made of integers
                    quo[mm] = (q(Q(c[0]) / Q(cb[0])), 0)
                    continue
                if not mb and c[1] == 0 and Q(c[0]).denominator == 1 and Q(cb[0]).denominator == 1:
                    k, r = divmod(int(c[0]), int(cb[0]))
                    if k:
                        quo[m] = (k, 0)
                    if r:
                        rem[m] = (r, 0)
                    continue
            rem[m] = c
        return Poly(quo), Poly(rem)
    # b general: try to subtract integer multiples of b matching its leading monomial
    lead = max(b.d)
    cb = b.d[lead]
    quo = ZERO
    rem = a
    for _ in range(4):
        c = rem.d.get(lead)
        if c is None or c[1] != 0 or cb[1] != 0 or (Q(c[0]) / Q(cb[0])).denominator != 1:
            break
        k = int(Q(c[0]) / Q(cb[0]))
        quo = quo + k
        rem = rem - b * k
    return quo, rem


def mod(a, b):
    return a - lift(b) * floordiv(a, b)


def _cmp_norm(p):
    """scale by a positive rational so that coefficients are coprime integers."""
    den = 1
    for c in p.d.values():
        for x in c:
            den = den * Q(x).denominator // math.gcd(den, Q(x).denominator)
    g = 0
    for c in p.d.values():
        for x in c:
            g = math.gcd(g, int(Q(x) * den))
    if g == 0:
        return p
    return p * Q(den, g)


def lt0(p):
    """Iverson bracket [p < 0]"""
    if p.is_const():
        return ONE if p.const()[0] < 0 else ZERO
    if not p.real:
        p = re(p)
        if p.is_const():
            return lt0(p)
    s = inf_sign(p)
    if s is not None:
        return ONE if s < 0 else ZERO
    tab = tabulate(lambda v: int(v < 0), [p])
    if tab is not None:
        return tab
    if is_nonneg(p):
        return ZERO
    if is_pos(-p):
        return ONE
    p = _cmp_norm(p)
    if p.integer:
        # p<0  <=> p<=-1; canonical with its negation: [p<0] = 1-[-p-1<0]
        o = oracle.lt(p)
        if o is not None:
            return ONE if o else ZERO
        n = -p - 1
        if min(n.d.items(), key=lambda t: (t[0], t[1])) < min(p.d.items(), key=lambda t: (t[0], t[1])):
            return ONE - lift(intern("cmp", ("lt", n), int_=True, idem=True, fv=p.fv, lvl=p.lvl))
    else:
        o = oracle.lt(p)
        if o is not None:
            return ONE if o else ZERO
    return lift(intern("cmp", ("lt", p), int_=True, idem=True, fv=p.fv, lvl=p.lvl))


def eq0(p):
    if p.is_const():
        return ONE if p.is_zero() else ZERO
    if inf_sign(p) is not None:
        return ZERO
    tab = tabulate(lambda v: int(v == 0), [p])
    if tab is not None:
        return tab
    if p.real and (is_pos(p) or is_pos(-p)):
        return ZERO
    if len(p.d) == 1 and all((a.kind == "exp" and not has_inf(a.data)) or (a.pos and a.real and a.kind not in ("special", "exp")) for a in (_atoms[i] for i, e in next(iter(p.d)))):
        return ZERO
    o = oracle.eq(p)
    if o is not None:
        return ONE if o else ZERO
    if p.real:
        p = _cmp_norm(p)
    lead = min(p.d)
    c = p.d[lead]
    if c[1] == 0 and c[0] < 0:
        p = -p
    return lift(intern("cmp", ("eq", p), int_=True, idem=True, fv=p.fv, lvl=p.lvl))


def ite(c, a, b):
    if c == ONE:
        return a
    if c.is_zero():
        return b
    if a == b:
        return a
    return c * a + (ONE - c) * b


# ------------------------------------------------------------------ big sums
def bound(level):
    return var("_b%d" % level, int_=True, nonneg=True)


def mk_sum(vs, body):
    """vs: list of (var Poly, extent Poly); body Poly. Returns normal form of  Σ_vs body."""
    out = ZERO
    for m, c in body.d.items():
        out = out + Poly({(): c}) * _sum_mono(list(vs), m)
    return out


def vid(v):
    (m, c), = v.d.items()
    return m[0][0]


def _sum_mono(vs, m):
    # concrete small extents are expanded
    for k, (v, n) in enumerate(vs):
        if n.is_int_const() and n.as_int() <= 32:
            rest = vs[:k] + vs[k + 1:]
            out = ZERO
            i = vid(v)
            for x in range(max(0, n.as_int())):
                out = out + mk_sum([(w, subst(e, {i: lift(x)})) for w, e in rest], subst(Poly({m: (1, 0)}), {i: lift(x)}))
            return out
    ids = {vid(v): k for k, (v, n) in enumerate(vs)}
    # drop binders that do not occur
    fv = set()
    for i, e in m:
        fv |= _atoms[i].fv
    for v, n in vs:
        fv |= n.fv
    for k, (v, n) in enumerate(vs):
        if vid(v) not in fv:
            return n * _sum_mono(vs[:k] + vs[k + 1:], m)
    # delta elimination
    for i, e in m:
        a = _atoms[i]
        if a.kind == "cmp" and a.data[0] == "eq":
            p = a.data[1]
            for k, (v, n) in enumerate(vs):
                vi = vid(v)
                if any(vi in n2.fv for _, n2 in vs):
                    continue
                if vi in a.fv:
                    sol = solve_lin(p, vi)
                    if sol is not None:
                        rest = tuple(x for x in m if x[0] != i)
                        b = subst(Poly({rest: (1, 0)}), {vi: sol})
                        guard = (ONE - lt0(sol)) * lt0(sol - n)
                        return mk_sum(vs[:k] + vs[k + 1:], b * guard)
    # flatten nested sums that depend on the binders
    for pos, (i, e) in enumerate(m):
        a = _atoms[i]
        if a.kind == "sum" and (a.fv & set(ids)) and isinstance(e, int) and e > 0:
            b = Poly({tuple(x for x in m if x[0] != i): (1, 0)})
            nvs = list(vs)
            for _ in range(e):
                ws, wb = open_sum(a)
                nvs += ws
                b = b * wb
            return mk_sum(nvs, b)
    # connected components
    comps = []   # (set of var ids, list of factors)
    indep = []
    for f in m:
        dep = _atoms[f[0]].fv & set(ids)
        if not dep:
            indep.append(f)
        else:
            comps.append((set(dep), [f]))
    for v, n in vs:
        dep = n.fv & set(ids)
        if dep:
            comps.append((set(dep) | {vid(v)}, []))
    merged = True
    while merged:
        merged = False
        for x in range(len(comps)):
            for y in range(x + 1, len(comps)):
                if comps[x][0] & comps[y][0]:
                    comps[x] = (comps[x][0] | comps[y][0], comps[x][1] + comps[y][1])
                    del comps[y]
                    merged = True
                    break
            if merged:
                break
    out = Poly({tuple(indep): (1, 0)})
    used = set()
    for s, fs in comps:
        used |= s
        out = out * _sum_atom([(v, n) for v, n in vs if vid(v) in s], tuple(sorted(fs)))
    for v, n in vs:
        if vid(v) not in used:
            out = out * n
    return out


def _sum_atom(vs, m):
    body = Poly({m: (1, 0)})
    L = max([body.lvl] + [n.lvl for v, n in vs])
    best = None
    for perm in itertools.permutations(range(len(vs))):
        sub = {}
        for k, p in enumerate(perm):
            sub[vid(vs[p][0])] = bound(L + 1 + k)
        exts = tuple(subst(vs[p][1], sub) for p in perm)
        b = subst(body, sub)
        key = (tuple(tuple(sorted(e.d.items())) for e in exts), tuple(sorted(b.d.items())))
        if best is None or key < best[0]:
            best = (key, exts, b)
    _, exts, b = best
    lvls = tuple(L + 1 + k for k in range(len(vs)))
    fv = b.fv
    for e in exts:
        fv = fv | e.fv
    fv = fv - {vid(bound(l)) for l in lvls}
    if len(b.d) != 1 or next(iter(b.d.values())) != (1, 0):
        # renaming changed the normal form (guards decided): re-sum
        nv = [(bound(l), e) for l, e in zip(lvls, exts)]
        fr = [(fresh(), e) for _, e in nv]
        sub = {vid(nv[k][0]): fr[k][0] for k in range(len(nv))}
        return mk_sum([(fr[k][0], subst(fr[k][1], sub)) for k in range(len(nv))], subst(b, sub))
    a = intern("sum", (lvls, exts, b), real=b.real, int_=b.integer, nonneg=is_nonneg(b), fv=fv, lvl=L + len(vs))
    return lift(a)


def open_sum(a):
    lvls, exts, b = a.data
    fr = [fresh() for _ in lvls]
    sub = {vid(bound(l)): fr[k] for k, l in enumerate(lvls)}
    return [(fr[k], subst(exts[k], sub)) for k in range(len(lvls))], subst(b, sub)


def solve_lin(p, vi):
    """p == 0 solved for variable atom vi when p = ±v + rest (rest free of v, integer)."""
    coef = None
    rest = {}
    for m, c in p.d.items():
        has = any(vi in _atoms[i].fv for i, e in m)
        if has:
            if m == ((vi, 1),) and c in ((1, 0), (-1, 0)):
                coef = c[0]
            else:
                return None
        else:
            rest[m] = c
    if coef is None:
        return None
    r = Poly(rest) * (-coef)
    return r if r.integer else None


# ------------------------------------------------------------------ substitution
def subst(p, sub):
    """sub: {atom id (var): Poly}"""
    if not sub or not (p.fv & sub.keys()):
        return p
    memo = {}
    return _subst(p, sub, memo)


def _subst(p, sub, memo):
    if not (p.fv & sub.keys()):
        return p
    out = ZERO
    for m, c in p.d.items():
        t = None
        plain = []
        for i, e in m:
            if _atoms[i].fv & sub.keys():
                r = _subst_atom(_atoms[i], sub, memo)
                f = powatom(r, e)
                t = f if t is None else t * f
            else:
                plain.append((i, e))
        base = Poly({tuple(plain): c})
        out = out + (base if t is None else base * t)
    return out


def _subst_atom(a, sub, memo):
    r = memo.get(a.id)
    if r is not None:
        return r
    k = a.kind
    S = lambda x: _subst(x, sub, memo)
    if k == "var":
        r = sub.get(a.id, None)
        if r is None:
            r = lift(a)
    elif k == "app":
        r = rebuild_app(a.data[0], [S(x) for x in a.data[1]])
    elif k == "ind":
        args = [S(x) for x in a.data[1]]
        r = rebuild_ind(a.data[0], args, a.data[2])
    elif k == "conj":
        r = conj(_subst_atom(a.data, sub, memo))
    elif k == "exp":
        r = exp(S(a.data))
    elif k == "log":
        r = log(S(a.data))
    elif k == "pbase":
        x = S(a.data)
        r = lift(intern("pbase", x, real=x.real, pos=is_pos(x), nonneg=is_nonneg(x), fv=x.fv, lvl=x.lvl))
        # value is used with an exponent: powatom will keep it; make it canonical
        r = _PB(x)
    elif k == "fdiv":
        r = floordiv(S(a.data[0]), S(a.data[1]))
    elif k == "cmp":
        x = S(a.data[1])
        r = lt0(x) if a.data[0] == "lt" else eq0(x)
    elif k == "sum":
        vs, body = open_sum(a)
        r = mk_sum([(v, S(n)) for v, n in vs], S(body))
    else:
        r = lift(a)
    memo[a.id] = r
    return r


class _PB(Poly):
    """marker: polynomial standing for a pbase atom; powatom must use ppow."""
    __slots__ = ()

    def __init__(self, p):
        Poly.__init__(self, p.d)


_old_powatom = powatom


def powatom(p, e):  # noqa: F811
    if isinstance(p, _PB):
        return ppow(Poly(p.d), e)
    return _old_powatom(p, e)


# application rewriting hooks: name -> function(args)->Poly or None
APP_RULES = {}


def rebuild_app(name, args):
    h = APP_RULES.get(name)
    if h is not None:
        r = h(*args)
        if r is not None:
            return r
    return app(name, *args)


def rebuild_ind(name, args, k):
    h = APP_RULES.get(name)
    if h is not None:
        r = h(*args)
        if r is not None:
            return eq0(r - k)
    return ind(name, args, k)


# ------------------------------------------------------------------ zero test
def clear_denominators(p):
    for _ in range(60):
        mins = {}
        half = False
        for m in p.d:
            for i, e in m:
                if e < 0 and e < mins.get(i, 0):
                    mins[i] = e
        if not mins:
            return p
        f = mono_poly({i: -e for i, e in mins.items()})
        # multiply by the denominators (assumed non-zero: division preconditions)
        r = ZERO
        for m, c in p.d.items():
            d = dict(m)
            extra = ONE
            for i, e in mins.items():
                x = d.pop(i, 0) - e
                if x == 0:
                    continue
                a = _atoms[i]
                x = q(x)
                if a.kind == "pbase":
                    k = math.floor(x)
                    fr = x - k
                    if fr:
                        d[i] = fr
                    if k:
                        extra = extra * a.data ** k
                else:
                    d[i] = x
            r = r + Poly({tuple(sorted(d.items())): c}) * extra
        p = r
    return p


def is_zero(p):
    if not p.d:
        return True
    p = clear_denominators(p)
    return not p.d


def equal(a, b):
    return is_zero(lift(a) - lift(b))


# ------------------------------------------------------------------ printing
def show_atom(a):
    k, d = a.kind, a.data
    if k == "var":
        return str(d)
    if k == "app":
        return "%s(%s)" % (d[0], ",".join(map(show, d[1])))
    if k == "ind":
        return "[%s(%s)=%d]" % (d[0], ",".join(map(show, d[1])), d[2])
    if k == "conj":
        return "conj(%s)" % show_atom(d)
    if k in ("exp", "log"):
        return "%s(%s)" % (k, show(d))
    if k == "pbase":
        return "{%s}" % show(d)
    if k == "prime":
        return "%d" % d
    if k == "sum":
        return "Sum[%s](%s)" % (",".join("_b%d<%s" % (l, show(e)) for l, e in zip(d[0], d[1])), show(d[2]))
    if k == "fdiv":
        return "(%s // %s)" % (show(d[0]), show(d[1]))
    if k == "cmp":
        return "[%s %s 0]" % (show(d[1]), "<" if d[0] == "lt" else "==")
    return str(d)


def show(p, maxlen=400):
    if not p.d:
        return "0"
    parts = []
    for m, c in sorted(p.d.items(), key=lambda t: t[0]):
        s = "*".join(show_atom(_atoms[i]) + ("" if e == 1 else "^%s" % (e if isinstance(e, int) and e > 0 else "(%s)" % e)) for i, e in m)
        if c[1] == 0:
            cs = str(c[0])
        elif c[0] == 0:
            cs = "%sj" % c[1]
        else:
            cs = "(%s+%sj)" % c
        if s and cs == "1":
            parts.append(s)
        elif s:
            parts.append(cs + "*" + s)
        else:
            parts.append(cs)
        if len(parts) > 40:
            parts.append("...")
            break
    r = " + ".join(parts)
    return r if len(r) < 4 * maxlen else r[:4 * maxlen] + "..."


# ------------------------------------------------------------------ numeric evaluation
class Env:
    """numeric interpretation of variables and uninterpreted functions."""

    def __init__(self, vals=None, funs=None, seed=0, mode=0):
        self.mode = mode                  # 0: generic values; 1: near one; 2: near zero; 3: wide
        self.vals = dict(vals or {})      # var name -> number
        self.funs = dict(funs or {})      # function name -> python callable(*numeric args)
        self.seed = seed
        self.auto = {}
        self.memo = {}

    def fun(self, name, args):
        f = self.funs.get(name)
        if f is not None:
            return f(*args)
        d = FUNS.get(name) or {}
        if d.get("eval"):
            return d["eval"](*args)
        key = (name, args)
        v = self.auto.get(key)
        if v is None:
            import random
            r = random.Random(hash((self.seed, name, tuple(complex(x) for x in args))) & 0xffffffff)
            if d.get("dom"):
                v = r.randrange(d["dom"])
            elif d.get("int_"):
                v = r.randrange(0, 7)
            elif d.get("pos"):
                v = r.uniform(0.3, 1.7)
            elif d.get("real", True):
                v = r.uniform(-1.3, 1.3)
            else:
                v = complex(r.uniform(-1.1, 1.1), r.uniform(-1.1, 1.1))
            if self.mode and not d.get("dom") and not d.get("int_"):
                v = self.shift(v, d.get("pos"))
            self.auto[key] = v
        return v

    def shift(self, v, pos=False):
        if self.mode == 1:
            return 1 + 1e-4 * v
        if self.mode == 2:
            return 1e-4 * v
        return 8 * v


def neval(p, env):
    tot = 0
    for m, c in p.d.items():
        t = complex(c[0], c[1]) if c[1] != 0 else (int(c[0]) if Q(c[0]).denominator == 1 else float(c[0]))
        for i, e in m:
            if t == 0:
                break
            b = neval_atom(_atoms[i], env)
            if e == 1:
                t = t * b
            else:
                if isinstance(e, Fraction):
                    e = float(e)
                t = t * (b ** e)
        tot = tot + t
    return tot


def neval_atom(a, env):
    import cmath
    key = a.id
    use_memo = not a.fv or True
    k, d = a.kind, a.data
    mk = (key, tuple(env.vals.get(_atoms[v].data) for v in a.fv))
    if mk in env.memo:
        return env.memo[mk]
    if k == "var":
        if d not in env.vals:
            import random
            r = random.Random(hash((env.seed, d)) & 0xffffffff)
            if a.int:
                env.vals[d] = r.randrange(1, 4)
            elif a.pos:
                env.vals[d] = r.uniform(0.3, 1.7)
            elif a.real:
                env.vals[d] = r.uniform(-1.3, 1.3)
            else:
                env.vals[d] = complex(r.uniform(-1, 1), r.uniform(-1, 1))
        return env.vals[d]
    if k == "special":
        if d == "pi":
            return math.pi
        return float(d)
    if k == "prime":
        return d
    if k == "app":
        r = env.fun(d[0], tuple(neval(x, env) for x in d[1]))
    elif k == "ind":
        r = int(round(complex(env.fun(d[0], tuple(neval(x, env) for x in d[1]))).real) == d[2])
    elif k == "conj":
        r = complex(neval_atom(d, env)).conjugate()
    elif k == "exp":
        x = neval(d, env)
        r = cmath.exp(x) if isinstance(x, complex) else math.exp(x)
    elif k == "log":
        x = neval(d, env)
        if isinstance(x, complex) or x < 0:
            r = cmath.log(x)
        else:
            r = math.log(x) if x != 0 else -math.inf
    elif k == "pbase":
        r = neval(d, env)
        if isinstance(r, complex) and abs(r.imag) < 1e-15 * max(1, abs(r.real)):
            r = r.real
    elif k == "fdiv":
        r = int(round(neval_real(d[0], env))) // int(round(neval_real(d[1], env)))
    elif k == "cmp":
        x = neval(d[1], env)
        x = complex(x)
        r = int(x.real < 0) if d[0] == "lt" else int(abs(x) < 1e-12)
    elif k == "sum":
        lvls, exts, b = d
        r = _nsum(lvls, exts, b, env, 0)
    else:
        raise NotImplementedError(k)
    env.memo[mk] = r
    return r


def neval_real(p, env):
    x = neval(p, env)
    return x.real if isinstance(x, complex) else x


def _nsum(lvls, exts, b, env, k):
    if k == len(lvls):
        return neval(b, env)
    n = int(round(neval_real(exts[k], env)))
    name = "_b%d" % lvls[k]
    old = env.vals.get(name)
    t = 0
    for x in range(n):
        env.vals[name] = x
        t = t + _nsum(lvls, exts, b, env, k + 1)
    if old is None:
        env.vals.pop(name, None)
    else:
        env.vals[name] = old
    return t
