"""C07  Operators built from local-operator strings act as the sum of the right-to-left products of their factors."""
import itertools


def spec_action(cfg, string, ind, look, sign):
    """cfg: list of terms/values; string: list of (idx, map, mels, fermionic); applied from the last factor to the first."""
    m = 1
    for (i, mp, me, fe) in reversed(string):
        cur = ind(cfg, i)
        m = m * look(me, cur)
        if fe:
            m = m * sign(cfg, i)
        new = look(mp, cur)
        cfg = [new if j == i else c for j, c in enumerate(cfg)]
    return cfg, m


def symbolic(C):
    import numpy as np
    import types
    import jax
    import jax.numpy as jnp
    from engine import harness as H, terms as T, logic, sym
    from engine.terms import lift, ONE, ZERO
    jv = H.load()
    import jVMC.operator as op
    from jVMC.operator import branch_free as bf
    C.assume("local configurations lie in {0..lDim-1}; fermionic factors act on lDim=2",
             "floating point treated as exact arithmetic; string length and number of strings bounded as listed, every table entry, "
             "site, prefactor and configuration symbolic",
             "operators flagged diagonal have the identity map (as all diagonal operators defined by the library do)")
    FN = ["jVMC.operator.branch_free.BranchFreeOperator._get_s_primes", "jVMC.operator.branch_free.BranchFreeOperator.compile",
          "jVMC.operator.branch_free.BranchFreeOperator.add"]
    np_ones = staticmethod(lambda shape, dtype=float, **k: sym.mark_np(sym.array(sym.const_arr(np.ones(shape, dtype=dtype)))))

    def look(tab, cur, lDim):
        """tab: list of terms, cur: finite-domain term"""
        r = ZERO
        for v in range(lDim):
            r = r + T.tabulate(lambda x: int(x == v), [cur]) * tab[v]
        return r

    def action(cfg, string, lDim, L):
        """spec: apply right-to-left; sites symbolic (finite domain L)"""
        m = ONE
        for (i, mp, me, fe) in reversed(string):
            isite = [T.tabulate(lambda x: int(x == j), [i]) if not i.is_int_const() else lift(int(i.as_int() == j)) for j in range(L)]
            cur = sum((isite[j] * cfg[j] for j in range(L)), ZERO)
            m = m * look(me, cur, lDim)
            if fe:
                # (-1)^(number of occupied sites beyond i), on the configuration before the factor acts
                sg = ZERO
                for j in range(L):
                    p = isite[j]
                    for q in range(j + 1, L):
                        p = p * (ONE - 2 * cfg[q])
                    sg = sg + p
                m = m * sg
            new = look(mp, cur, lDim)
            cfg = [isite[j] * new + (ONE - isite[j]) * cfg[j] for j in range(L)]
        return cfg, m

    def phi(cfg):
        return T.app("phi", *cfg)

    def generic(nm, k, lDim, L, diag=False, fermionic=None, site=None):
        """generic local operator: symbolic site, map and matrix elements"""
        i = T.app("site_%s_%d" % (nm, k)) if site is None else lift(site)
        if site is None:
            T.declare("site_%s_%d" % (nm, k), int_=True, dom=L)
            i = T.app("site_%s_%d" % (nm, k))
            si = sym.from_fun((), np.int32, lambda i=i: i)
        else:
            si = site
        T.declare("map_%s_%d" % (nm, k), int_=True, dom=lDim)
        T.declare("me_%s_%d" % (nm, k), real=False)
        mp = [lift(v) if diag else T.app("map_%s_%d" % (nm, k), lift(v)) for v in range(lDim)]
        me = [T.app("me_%s_%d" % (nm, k), lift(v)) for v in range(lDim)]
        d = dict(idx=si, map=jnp.arange(lDim) if diag else sym.inp("map_%s_%d" % (nm, k), (lDim,), np.int32, dom=lDim),
                 matEls=sym.inp("me_%s_%d" % (nm, k), (lDim,), np.complex128), diag=diag)
        if fermionic is not None:
            d["fermionic"] = fermionic
        return bf.LocalOp(**d), (i, mp, me, bool(fermionic))

    def run(h, L, lDim, s, *args):
        f = h.compile()
        a = f[1](*args)
        return f[0](s, *a)

    def check(name, h, strings, L, lDim, shape=None, args=(), pref=None):
        shape = shape or (L,)
        s = sym.inp("s", (L,), np.int32, dom=lDim)
        sp, me = run(h, L, lDim, s.reshape(shape), *args)
        n = me.shape[0]
        got = ZERO
        arr = sp.reshape((n, L))
        for k in range(n):
            got = got + me.term(k) * phi([arr.term(k, j) for j in range(L)])
        exp = ZERO
        s0 = [T.app("s", lift(j)) for j in range(L)]
        for k, st in enumerate(strings):
            c, m = action(list(s0), st, lDim, L)
            exp = exp + (pref[k] if pref else ONE) * m * phi(c)
        C.true(name + " shape", tuple(sp.shape) == (n,) + tuple(shape) and tuple(me.shape) == (n,))
        C.eq(name + " sum of m*phi(s')", got, exp)

    T.declare("phi", real=False)
    with H.patched((H.NPProxy, "ones", np_ones)):
        # one generic string of every length / every fermion pattern, arbitrary sites and tables
        for lDim, L, n, fs in ((2, 3, 1, (0,)), (2, 3, 1, (1,)), (2, 3, 2, (0, 0)), (2, 3, 2, (1, 1)), (2, 3, 2, (0, 1)), (2, 3, 2, (1, 0)),
                               (3, 2, 2, (0, 0)), (2, 2, 3, (1, 0, 1)), (4, 2, 1, (0,))):
            with C.block("generic string lDim=%d L=%d fermi=%s" % (lDim, L, fs), FN):
                ops, sp = zip(*[generic("g%d%d%d" % (lDim, L, n), k, lDim, L, fermionic=bool(fs[k])) for k in range(n)])
                h = op.BranchFreeOperator(lDim=lDim)
                h.add(tuple(ops))
                check("one string", h, [list(sp)], L, lDim)
        # ---- chains of any length, factors at any sites of them
        for lDim, fs in ((2, (0,)), (2, (1,)), (3, (0,)), (2, (0, 0)), (2, (1, 0)), (2, (0, 1)), (2, (1, 1)), (3, (0, 0)), (2, (1, 0, 1)), (2, (0, 0, 0))):
            with C.block("chains of any length lDim=%d fermi=%s" % (lDim, fs), FN, limit=100):
                (LL,) = sym.sdims("Lc")
                Lp = sym.dim_poly(LL)
                n = len(fs)
                ops, tabs = [], []
                for k in range(n):
                    nm = "any%d%d_%d" % (lDim, n, k)
                    i = C.idx("site%d" % k, LL)
                    T.declare("map" + nm, int_=True, dom=lDim)
                    T.declare("me" + nm, real=False)
                    ops.append(bf.LocalOp(idx=sym.from_fun((), np.int32, lambda i=i: i), map=sym.inp("map" + nm, (lDim,), np.int32, dom=lDim),
                                          matEls=sym.inp("me" + nm, (lDim,), np.complex128), diag=False, fermionic=bool(fs[k])))
                    tabs.append((i, [T.app("map" + nm, lift(v)) for v in range(lDim)], [T.app("me" + nm, lift(v)) for v in range(lDim)], fs[k]))
                T.declare("s", int_=True, dom=lDim)
                h = op.BranchFreeOperator(lDim=lDim)
                h.add(tuple(ops))
                sp, me = run(h, LL, lDim, sym.inp("s", (LL,), np.int32, dom=lDim))
                C.true("shapes", tuple(sp.shape) == (1, LL) and tuple(me.shape) == (1,), detail="%s %s" % (sp.shape, me.shape))
                cfg, m = (lambda q: T.app("s", q)), ONE
                for i, mp, mt, fe in reversed(tabs):
                    cur = cfg(i)
                    m = m * look(mt, cur, lDim)
                    if fe:
                        m = m * sym.product(types.SimpleNamespace(shape=(LL,), at=lambda q, cfg=cfg, i=i: ONE - 2 * (ONE - T.lt0(q - i - 1)) * cfg(q)), [None], {0: Lp}, [], [0])
                    cfg = lambda q, cfg=cfg, i=i, new=look(mp, cur, lDim): T.eq0(q - i) * new + (ONE - T.eq0(q - i)) * cfg(q)
                q = C.idx("q", LL)
                C.eq("connected configuration, every site", sp.term(lift(0), q), cfg(q))
                C.eq("matrix element: product of the factors' matrix elements and signs", me.term(lift(0)), m)
        # strings of different lengths, diagonal ones merged, identity padding
        with C.block("several strings, padding and diagonal merging", FN, limit=200):
            L, lDim = 3, 2
            G = lambda nm, k, **kw: generic(nm, k, lDim, L, **kw)
            a, b, c, d, e, f = G("a", 0, site=1), G("b", 0, diag=True, site=0), G("b", 1, diag=True), G("c", 0, diag=True, site=2), G("d", 0, site=0), G("d", 1)
            g = G("g", 0, diag=True)
            h = op.BranchFreeOperator(lDim=lDim)
            m = [G("m", k, diag=(k in (0, 3)), site=k % 3) for k in range(4)]
            strs = [[a], [b, c], [d], [e, f], [g], [m[0], m[1]], [m[2], m[3]]]
            for st in strs:
                h.add(tuple(o for o, _ in st))
            check("sum", h, [[q for _, q in st] for st in strs], L, lDim)
            h += (a[0],)
            strs.append([a])
            check("after adding a term", h, [[q for _, q in st] for st in strs], L, lDim)
        with C.block("single diagonal / all diagonal", FN):
            L, lDim = 3, 2
            a, b = generic("p", 0, lDim, L, diag=True), generic("q", 0, lDim, L, diag=True)
            h = op.BranchFreeOperator()
            h.add((a[0],))
            check("one", h, [[a[1]]], L, lDim)
            h.add((b[0],))
            check("two", h, [[a[1]], [b[1]]], L, lDim)
        with C.block("two-dimensional configurations", FN):
            L, lDim = 4, 2
            a, b = generic("t", 0, lDim, L), generic("t", 1, lDim, L)
            h = op.BranchFreeOperator()
            h.add((a[0], b[0]))
            check("2x2 lattice", h, [[a[1], b[1]]], L, lDim, shape=(2, 2))
            d = generic("t", 2, lDim, L, fermionic=True)
            h = op.BranchFreeOperator()
            h.add((d[0],))
            check("2x2 lattice fermionic", h, [[d[1]]], L, lDim, shape=(2, 2))
        # prefactors, including time dependent ones, and the operator algebra
        with C.block("prefactors and algebra", FN + ["jVMC.operator.branch_free.OpStr.__new__", "jVMC.operator.branch_free.OpStr.__mul__",
                     "jVMC.operator.branch_free.OpStr.__rmul__", "jVMC.operator.branch_free.LocalOp.__mul__", "jVMC.operator.branch_free.LocalOp.__rmul__",
                     "jVMC.operator.branch_free.scal_opstr", "jVMC.operator.branch_free._prod_fun"]):
            L, lDim = 3, 2
            a, b, c = [generic("z", k, lDim, L, site=k) for k in range(3)]
            A, B_, D = a[0], b[0], c[0]
            t = T.var("tt")
            tv = lambda: sym.from_fun((), np.float64, lambda: t)
            f1 = lambda t: t * t + 1.0
            f2 = lambda t: 3.0 * t
            F1, F2 = t * t + 1, 3 * t
            V = [a[1], b[1], c[1]]
            cases = {
                "a*O": (lambda: 2.5 * A, lift(2.5), V[:1]),
                "O*O": (lambda: A * B_, ONE, V[:2]),
                "O*O*O": (lambda: A * B_ * D, ONE, V),
                "O*(O*O)": (lambda: A * (B_ * D), ONE, V),
                "a*(O*O)": (lambda: (-1.5) * (A * B_), lift(-1.5), V[:2]),
                "a*O*O": (lambda: 2.0 * A * B_, lift(2), V[:2]),
                "a*b*O": (lambda: 2.0 * (3.0 * A), lift(6), V[:1]),
                "f*O": (lambda: f1 * A, F1, V[:1]),
                "a*(f*O)": (lambda: 2.0 * (f1 * A), 2 * F1, V[:1]),
                "f*(g*O)": (lambda: f2 * (f1 * (A * B_)), F1 * F2, V[:2]),
                "(f*O)*(g*O)": (lambda: (f1 * A) * (f2 * B_), F1 * F2, V[:2]),
                "(a*O)*(b*O)": (lambda: (2.0 * A) * (5.0 * B_), lift(10), V[:2]),
                "(O*O)*(a*O)": (lambda: (A * B_) * (5.0 * D), lift(5), V),
                "scal_opstr": (lambda: bf.scal_opstr(0.5, (A, B_)), lift(0.5), V[:2]),
                "scal_opstr twice": (lambda: bf.scal_opstr(2.0, bf.scal_opstr(0.5, (A, B_))), ONE, V[:2]),
                "scal_opstr f": (lambda: bf.scal_opstr(f1, (A, B_)), F1, V[:2]),
                "cpx": (lambda: 2.0j * A, lift(2j), V[:1]),
            }
            for nm, (mk, pf, st) in cases.items():
                try:
                    h = op.BranchFreeOperator()
                    o = mk()
                    h.add(o if isinstance(o, tuple) else (o,))
                    check(nm, h, [st], L, lDim, args=(tv(),), pref=[pf])
                except Exception as ex:
                    if type(ex).__name__ == "TimeUp":
                        raise
                    C.undecided(nm, "%s: %s" % (type(ex).__name__, ex))
            # sum with prefactors evaluated at two different times: nothing is carried over
            h = op.BranchFreeOperator()
            h.add(f1 * A)
            h.add((B_,))
            h.add(2.0 * D)
            f = h.compile()
            s = sym.inp("s", (L,), np.int32, dom=lDim)
            for tn in ("t1", "t2"):
                tt = T.var(tn)
                sp, me = f[0](s, *f[1](sym.from_fun((), np.float64, lambda: tt)))
                got = sum((me.term(k) * phi([sp.term(k, j) for j in range(L)]) for k in range(3)), ZERO)
                exp = ZERO
                for q, pf in zip(V, (tt * tt + 1, ONE, lift(2))):
                    cc, m = action([T.app("s", lift(j)) for j in range(L)], [q], lDim, L)
                    exp = exp + pf * m * phi(cc)
                C.eq("time-dependent sum at " + tn, got, exp)
        # tables of the elementary operators against their physical definition
        with C.block("elementary operators", ["jVMC.operator.branch_free." + n for n in ("Id", "Sx", "Sy", "Sz", "Sp", "Sm", "number", "creation", "annihilation")]):
            # (new state or None if annihilated, amplitude) per local state
            E = {"Sx": [(1, 1), (0, 1)], "Sy": [(1, 1j), (0, -1j)], "Sz": [(0, -1), (1, 1)], "Sp": [(1, 1), (None, 0)], "Sm": [(None, 0), (0, 1)],
                 "number": [(None, 0), (1, 1)], "creation": [(1, 1), (None, 0)], "annihilation": [(None, 0), (0, 1)], "Id": [(0, 1), (1, 1)]}
            for nm, tab in E.items():
                o = getattr(bf, nm)(1)
                ok = int(o["idx"]) == 1
                for v, (nv, am) in enumerate(tab):
                    ok = ok and complex(np.asarray(o["matEls"])[v]) == am and (nv is None or int(np.asarray(o["map"])[v]) == nv)
                ok = ok and bool(o.get("fermionic", False)) == (nm in ("creation", "annihilation"))
                if o["diag"]:
                    ok = ok and all(int(x) == i for i, x in enumerate(np.asarray(o["map"])))
                C.true(nm, ok, detail=str(o))


def battery(B):
    import numpy as np
    import jax.numpy as jnp
    import jVMC
    import jVMC.operator as op
    import jVMC.global_defs as gd
    from jVMC.operator import branch_free as bf
    from engine.world import close
    D = B.D
    names = {"Sx": [(1, 1), (0, 1)], "Sy": [(1, 1j), (0, -1j)], "Sz": [(0, -1), (1, 1)], "Sp": [(1, 1), (0, 0)], "Sm": [(0, 0), (0, 1)],
             "number": [(0, 0), (1, 1)], "creation": [(1, 1), (0, 0)], "annihilation": [(0, 0), (0, 1)], "Id": [(0, 1), (1, 1)]}

    def act(s, string):
        s, m = list(s), 1.0 + 0j
        for (nm, i) in reversed(string):
            nv, am = names[nm][s[i]]
            m *= am
            if nm in ("creation", "annihilation"):
                m *= (-1) ** sum(s[i + 1:])
            s[i] = nv
            if m == 0:
                return tuple(s), 0
        return tuple(s), m

    def oracle(s, terms, t):
        out = {}
        for pf, st in terms:
            c, m = act(s, st)
            m = m * (pf(t) if callable(pf) else pf)
            if m != 0:
                out[c] = out.get(c, 0) + m
        return out

    def collect(h, configs, shape, *args):
        sp, me = h.get_s_primes(jnp.array(configs), *args)
        me = np.asarray(me)
        n = configs.shape[1]
        sp = np.asarray(sp).reshape(me.shape + (-1,))
        res = []
        for d in range(configs.shape[0]):
            for k in range(n):
                o = {}
                for c, m in zip(sp[d, k], me[d, k]):
                    if m != 0:
                        o[tuple(int(x) for x in c)] = o.get(tuple(int(x) for x in c), 0) + m
                res.append(o)
        return res

    def compare(got, exp, what):
        keys = set(got) | set(exp)
        for k in keys:
            if abs(got.get(k, 0) - exp.get(k, 0)) > 1e-5:
                raise AssertionError("%s: element to %s is %s, expected %s" % (what, k, got.get(k, 0), exp.get(k, 0)))
    F = {"f0": lambda t: 1.0 + t, "f1": lambda t: jnp.cos(t) * 2.0, "f2": lambda t: t * t + 0.5j}
    Fn = {"f0": lambda t: 1.0 + t, "f1": lambda t: np.cos(t) * 2.0, "f2": lambda t: t * t + 0.5j}

    def build(g, L, nterms, kinds, timedep):
        terms, objs = [], []
        for _ in range(nterms):
            st = [(kinds[g.integers(len(kinds))], int(g.integers(L))) for _ in range(int(g.integers(1, 4)))]
            o = None
            for (nm, i) in st:
                lo = getattr(op, nm)(i)
                o = lo if o is None else o * lo
            pf = 1.0
            c = g.integers(4 if timedep else 2)
            if c == 1:
                pf = float(g.normal()) + 0.3
                o = pf * o
            elif c == 2:
                k = "f%d" % g.integers(3)
                pf, o = Fn[k], F[k] * o
            elif c == 3:
                k, q = "f%d" % g.integers(3), float(g.normal()) + 0.2
                pf, o = (lambda t, k=k, q=q: q * Fn[k](t)), q * (F[k] * o)
            terms.append((pf, st))
            objs.append(o if isinstance(o, tuple) else (o,))
        return terms, objs
    spins, ferm = ["Sx", "Sy", "Sz", "Sp", "Sm", "Id"], ["number", "creation", "annihilation"]
    for i, (L, shape, kinds, timedep, nterms) in enumerate(((3, (3,), spins, False, 6), (4, (4,), ferm, False, 6), (4, (2, 2), spins, False, 5),
                                                           (6, (2, 3), ferm, False, 5), (6, (3, 2), spins, True, 4), (3, (3,), spins, True, 6),
                                                           (4, (4,), spins + ferm, True, 7), (5, (5,), ferm, False, 60))):
        def f():
            g = B.rng("t%d" % i)
            terms, objs = build(g, L, nterms, kinds, timedep)
            h = op.BranchFreeOperator()
            for o in objs[:-1]:
                h.add(o)
            allc = np.array(list(itertools.product([0, 1], repeat=L)))
            n = 8
            times = (0.3, 1.1, 0.3) if timedep else (None,)
            cnt = 0
            for rnd in range(2):
                for t in times:
                    c = allc[g.integers(len(allc), size=(D, n))]
                    r = collect(h, c.reshape((D, n) + shape), shape, *(() if t is None else (t,)))
                    act_terms = terms[:-1] if rnd == 0 else terms
                    for k, s in enumerate(c.reshape(-1, L)):
                        compare(r[k], oracle([int(x) for x in s], act_terms, t), "config %s time %s" % (s, t))
                        cnt += 1
                if rnd == 0:
                    h += objs[-1]          # operator extended after use
            return cnt
        B.case("random/%d" % i, f)

    def f():
        # random products of prefactors and strings in any association
        L, g = 3, B.rng("algebra")

        def expr(depth):
            k = int(g.integers(8)) if depth > 0 else 0
            if k == 0:
                nm, i = spins[g.integers(len(spins))], int(g.integers(L))
                return getattr(op, nm)(i), [], [(nm, i)]
            if k in (1, 2):
                o, fs, st = expr(depth - 1)
                q = float(g.normal()) + 0.3
                return (q * o if k == 1 else o * q), fs + [lambda t, q=q: q], st
            if k in (3, 4):
                o, fs, st = expr(depth - 1)
                nm = "f%d" % g.integers(3)
                return (F[nm] * o if k == 3 else o * F[nm]), fs + [Fn[nm]], st
            if k == 5:
                o, fs, st = expr(depth - 1)
                q = float(g.normal()) - 0.4
                return op.scal_opstr(q, o if isinstance(o, tuple) else (o,)), fs + [lambda t, q=q: q], st
            a, fa, sa = expr(depth - 1)
            b, fb, sb = expr(depth - 1)
            return a * b, fa + fb, sa + sb
        allc = np.array(list(itertools.product([0, 1], repeat=L)))
        for rep in range(6):
            h = op.BranchFreeOperator()
            terms = []
            for _ in range(6):
                o, fs, st = expr(3)
                h.add(o if isinstance(o, tuple) else (o,))
                terms.append((lambda t, fs=fs: np.prod([q(t) for q in fs]), st))
            c = np.stack([allc] * D)
            for t in (0.4, 1.3):
                r = collect(h, c, (L,), t)
                for k, s in enumerate(c.reshape(-1, L)):
                    compare(r[k], oracle([int(x) for x in s], terms, t), "products, config %s time %s" % (s, t))
        return 6
    B.case("products", f)

    def f():
        # many prefactors (parallel evaluation across processes)
        L, g = 6, B.rng("many")
        for extra in (0, 1):
            h = op.BranchFreeOperator()
            terms = []
            if extra:
                h.add((op.Sx(1),))
                terms.append((1.0, [("Sx", 1)]))
            for k in range(53):
                q = 0.5 + 0.1 * k
                a, b = int(g.integers(L)), int(g.integers(L))
                h.add(q * (op.Sx(a) * op.Sz(b)))
                terms.append((q, [("Sx", a), ("Sz", b)]))
                if k % 7 == 3:
                    h.add(op.Sx(a) * op.Sx(b))
                    terms.append((1.0, [("Sx", a), ("Sx", b)]))
            c = g.integers(0, 2, size=(D, 3, L))
            r = collect(h, c, (L,))
            for k, s in enumerate(c.reshape(-1, L)):
                compare(r[k], oracle([int(x) for x in s], terms, None), "many prefactors, config %s" % s)
    B.case("many-prefactors", f)

    def f():
        # larger local dimension, user-defined local operators
        g = B.rng("ld")
        for lDim in (3, 4):
            L = 3
            ops = []
            h = op.BranchFreeOperator(lDim=lDim)
            terms = []
            for k in range(4):
                st = []
                for _ in range(2):
                    st.append((int(g.integers(L)), g.permutation(lDim), g.normal(size=lDim)))
                terms.append(st)
                h.add(tuple(op.branch_free.LocalOp(idx=i, map=jnp.array(m, dtype=np.int32), matEls=jnp.array(e), diag=False) if False else
                            dict(idx=i, map=jnp.array(m, dtype=np.int32), matEls=jnp.array(e, dtype=complex), diag=False) for i, m, e in st))
            c = g.integers(0, lDim, size=(D, 4, L))
            r = collect(h, c, (L,))
            for k, s in enumerate(c.reshape(-1, L)):
                exp = {}
                for st in terms:
                    z, m = list(int(x) for x in s), 1.0
                    for i, mp, e in reversed(st):
                        m *= e[z[i]]
                        z[i] = int(mp[z[i]])
                    exp[tuple(z)] = exp.get(tuple(z), 0) + m
                compare(r[k], exp, "lDim %d config %s" % (lDim, s))
    B.case("local-dimension", f)
