"""C08  Local estimates: O_loc(s) = sum_{s'} O_{s,s'} psi(s')/psi(s)."""


def symbolic(C):
    import numpy as np
    import jax
    import jax.numpy as jnp
    from engine import harness as H, terms as T, logic, sym
    from engine.terms import lift, ONE, ZERO
    jv = H.load()
    import jVMC.operator.base as base
    import jVMC.operator as op
    C.assume("the operator is an arbitrary function s -> (s'_k, m_k), k < K with K fixed per obligation; amplitudes are an arbitrary function of the configuration",
             "number of devices symbolic everywhere, number of samples and batch size symbolic (the batching loop is unrolled for up to four full batches and a rest; further concrete sizes in the obligation names)",
             "exact arithmetic: psi(s')/psi(s) is represented as exp(log psi(s') - log psi(s))")
    L = 2
    DD, NN, KK = sym.sdims("D, N, K")
    H.DEVDIM[0] = DD
    T.declare("LP", real=False)
    T.declare("PSI", real=False)

    class GenOp(op.Operator):
        """arbitrary operator with K branches; variants of compile()'s documented interface"""

        def __init__(self, K, pre=False, big=False, **kw):
            self.K, self.pre, self.big = K, pre, big
            super().__init__(**kw)

        def compile(self):
            def f(s, *a):
                m = jnp.stack([sym.ufun("M%d" % k, s, *a) for k in range(self.K)])
                sp = jnp.stack([jnp.stack([sym.ufun("S%d_%d" % (k, j), s, dtype=np.int32) for j in range(L)]) for k in range(self.K)])
                return sp, m
            if self.pre:
                return f, lambda *a: tuple(x * x + 1.0 for x in a)
            return f
    for k in range(4):
        T.declare("M%d" % k, real=False)
        for j in range(L):
            T.declare("S%d_%d" % (k, j), int_=True, dom=2)

    class Psi:
        def __init__(self, logarithmic=True):
            self.logarithmic = logarithmic
            self.net = self

        def __call__(self, x):
            a = sym.get_arr(x)
            nm = "LP" if self.logarithmic else "PSI"
            if not a.shape[1:2] or (isinstance(a.shape[1], int) and a.shape[1] == 0):
                return sym.from_fun(a.shape[:2], np.complex128, lambda *i: ZERO)
            return sym.from_fun(a.shape[:2], np.complex128, lambda *i: T.app(nm, *[a.at(*i, lift(j)) for j in range(L)]))

        def apply(self, p, s):
            return sym.ufun("NET", p, s)
    T.declare("NET", real=False)

    def s_at(*i):
        return [T.app("s", *[lift(x) for x in i], lift(j)) for j in range(L)]

    def kept(m):
        return T.lt0(lift(1e-6) - T.pabs(m))

    def spec(s, K, targs=(), nm="LP", thr=True, lp=None):
        """sum over the branches whose matrix element is not negligible"""
        tot = ZERO
        den = lp if lp is not None else T.app(nm, *s)
        for k in range(K):
            m = T.app("M%d" % k, *s, *targs)
            sp = [T.app("S%d_%d" % (k, j), *s) for j in range(L)]
            amp = T.app(nm, *sp)
            r = T.exp(amp - den) if nm != "PSI" else amp * (ONE / den)
            tot = tot + (kept(m) if thr else ONE) * m * r
        return tot

    def run(K, force, fn):
        seen = []

        def mx(x, *a, **k):
            if not isinstance(x, jax.core.Tracer) or a or k:
                return jnp.max(x, *a, **k)
            seen.append(sym.get_arr(x))
            return force

        class JProxy:
            def __getattr__(self, n):
                return mx if n == "max" else getattr(jnp, n)
        with H.patched((base, "jnp", JProxy())):
            return fn(), seen

    FN = ["jVMC.operator.base.Operator.get_s_primes", "jVMC.operator.base.Operator._find_nonzero", "jVMC.operator.base.Operator.set_zero_to_zero",
          "jVMC.operator.base.Operator._get_O_loc", "jVMC.operator.base.Operator.get_O_loc", "jVMC.operator.base.Operator.get_O_loc_unbatched"]

    def hypo(seen, K, V, idx):
        """indicator polynomial of: the count at this sample is at most V"""
        h = ONE
        for a in seen:
            h = h * T.tabulate(lambda c: int(c <= V), [a.at(*idx)])
        return h

    for K in (1, 2, 3):
        for V in range(0 if K == 1 else 1, K + 1):
            with C.block("compaction K=%d, at most %d branches kept" % (K, V), FN, limit=200):
                D, N = DD, NN
                s = sym.inp("s", (D, N, L), np.int32, dom=2)
                o = GenOp(K)
                (sp, me), seen = run(K, V, lambda: o.get_s_primes(s))
                d, n = C.idx("d", D), C.idx("n", N)
                if not seen:
                    raise sym.Unsupported("retained number not obtained from a maximum over the counts")
                C.true("shapes", str(tuple(me.shape)) == str((D, N, V)) and len(sp.shape) == 3, detail=str((me.shape, sp.shape)))
                h = hypo(seen, K, V, (d, n))
                cnt = sum((kept(T.app("M%d" % k, *s_at(d, n))) for k in range(K)), ZERO)
                C.eq("count = number of non-negligible elements", seen[0].at(d, n), cnt)
                if V:
                    ol = o.get_O_loc_unbatched(Psi()(s), Psi()(sp))
                    C.eq("O_loc", h * ol.term(d, n), h * spec(s_at(d, n), K))
                    C.eq("sum over s' of any function", h * sum((me.term(d, n, k) * T.app("LP", *[sp.term(d, n * V + k, j) for j in range(L)]) for k in range(V)), ZERO),
                         h * sum((kept(T.app("M%d" % k, *s_at(d, n))) * T.app("M%d" % k, *s_at(d, n)) *
                                  T.app("LP", *[T.app("S%d_%d" % (k, j), *s_at(d, n)) for j in range(L)]) for k in range(K)), ZERO))

    K = 2
    tt = T.var("tt")
    tv = lambda t=tt: sym.from_fun((), np.float64, lambda: t)
    for nm, pre, targs, logm, given in (("plain", False, (), True, False), ("time argument", False, (tt,), True, False),
                                        ("preprocessed arguments", True, (tt,), True, True), ("plain amplitudes", False, (), False, False),
                                        ("plain amplitudes, given log psi", False, (), False, True)):
        with C.block("get_O_loc " + nm, FN, limit=200):
            D, N = DD, NN
            s = sym.inp("s", (D, N, L), np.int32, dom=2)
            o = GenOp(K, pre=pre)
            psi = Psi(logm)
            T.declare("lps", real=False)
            lps = sym.inp("lps", (D, N), np.complex128) if given else None
            d, n = C.idx("d", D), C.idx("n", N)
            for rep in range(2):             # second use of the compiled operator, other argument value
                ta = tuple(t + rep for t in targs)
                ol, _ = run(K, K, lambda: o.get_O_loc(s, psi, lps, *[tv(t) for t in ta]))
                ex = tuple(t * t + 1 for t in ta) if pre else ta
                if logm or not given:
                    e = spec(s_at(d, n), K, ex, "LP" if logm else "PSI", lp=T.app("lps", d, n) if given else None)
                else:
                    e = sum((kept(T.app("M%d" % k, *s_at(d, n))) * T.app("M%d" % k, *s_at(d, n)) *
                             T.app("PSI", *[T.app("S%d_%d" % (k, j), *s_at(d, n)) for j in range(L)]) for k in range(K)), ZERO) * T.exp(-T.app("lps", d, n))
                C.eq("O_loc use %d" % rep, ol.term(d, n), e)
    with C.block("sum over any number of connected configurations", ["jVMC.operator.base.Operator._get_O_loc", "jVMC.operator.base.Operator.get_O_loc_unbatched"], limit=60):
        D, N = DD, NN
        o = GenOp(2)
        for f in ("me", "lps", "lpk"):
            T.declare(f, real=False)
        o.matEl = sym.inp("me", (D, N, KK), np.complex128)
        Kp = sym.dim_poly(KK)
        # amplitudes of the connected configurations: one row per sample, the order of get_s_primes
        ol = o.get_O_loc_unbatched(sym.inp("lps", (D, N), np.complex128), sym.inp("lpk", (D, N * KK), np.complex128))
        d, n = C.idx("d", D), C.idx("n", N)
        k = T.fresh()
        logic.bound_var(k, Kp)
        C.struct("shape", str(tuple(ol.shape)) == str((D, N)), detail=str(ol.shape))
        C.eq("O_loc", ol.term(d, n), T.mk_sum([(k, Kp)], T.app("me", d, n, k) * T.exp(T.app("lpk", d, n * Kp + k) - T.app("lps", d, n))))
    FB = ["jVMC.operator.base.Operator.get_O_loc_batched", "jVMC.operator.base.expand_batch"] + FN
    for logm in (True, False):
        for N in (1, 2, 3, 5, 7):
            for b in sorted({1, 2, 3, 4, N, N + 2}):
                if not logm and (N not in (3, 5) or b > N):
                    continue
                with C.block("batched N=%d batch=%d%s" % (N, b, "" if logm else " plain amplitudes"), FB, limit=120):
                    D = DD
                    s = sym.inp("s", (D, N, L), np.int32, dom=2)
                    T.declare("lps", real=False)
                    lps = sym.inp("lps", (D, N), np.complex128)
                    o = GenOp(K, ElocBatchSize=b)
                    psi = Psi(logm)
                    ol, _ = run(K, K, lambda: o.get_O_loc(s, psi, lps if logm else None, tv()))
                    d = C.idx("d", D)
                    C.true("shape", str(tuple(ol.shape)) == str((D, N)), detail=str(ol.shape))
                    for n in range(N):
                        C.eq("O_loc[%d]" % n, ol.term(d, n), spec(s_at(d, n), K, (tt,), "LP" if logm else "PSI", lp=T.app("lps", d, lift(n)) if logm else None))
    # any number of samples that the code splits into up to four batches (and a rest): the requested batch size bq enters only through N // bq and N % bq
    for k, r in ((1, None), (2, None), (3, None), (1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2), (4, 1), (4, 3)):
        with C.block("batched, any number of samples, %s" % ("%d full batches" % k if r is None else "%d full batches after adapting the batch size, %d left" % (k, r)), FB, limit=120):
            if r is None:
                DB, BB, NB = sym.sdims("D, Bs, %d*Bs" % k)
            else:
                n_ = "%d*Bs" % k + ("+%d" % r if r else "")
                DB, CB, BB, NB = sym.sdims("D, Bs, bq, " + n_, ("Bs >= %d" % (r + 1), "floordiv(%s, bq) == %d" % (n_, k - 1), "mod(%s, bq) >= 1" % n_, "floordiv(%s, %d) == Bs" % (n_, k), "floordiv(%s, Bs) == %d" % (n_, k), "mod(%s, Bs) == %d" % (n_, r)))
                logic.fact("lt", lift(r) - sym.dim_poly(CB))
            H.DEVDIM[0] = DB
            s = sym.inp("s", (DB, NB, L), np.int32, dom=2)
            T.declare("lps", real=False)
            lps = sym.inp("lps", (DB, NB), np.complex128)
            o = GenOp(K)
            ol, _ = run(K, K, lambda: o.get_O_loc_batched(s, Psi(True), lps, BB, tv()))
            d, n = C.idx("d", DB), C.idx("n", BB if r is None else CB)
            Bp = sym.dim_poly(BB if r is None else CB)
            C.struct("shape", str(tuple(ol.shape)) == str((DB, NB)), detail=str(ol.shape))
            for nm, m in [("batch %d" % q, q * Bp + n) for q in range(k)] + [("left %d" % q, k * Bp + q) for q in range(r or 0)]:
                C.eq("O_loc, " + nm, ol.term(d, m), spec(s_at(d, m), K, (tt,), "LP", lp=T.app("lps", d, m)))
    H.DEVDIM[0] = DD
    with C.block("estimator function", ["jVMC.operator.base.Operator.get_estimator_function"], limit=100):
        for pre in (False, True):
            for logm in (True, False):
                o = GenOp(3, pre=pre)
                f = o.get_estimator_function(Psi(logm), tv())
                s = sym.inp("s", (L,), np.int32, dom=2)
                p = sym.inp("p", (2,), np.float64)
                pt = [T.app("p", lift(j)) for j in range(2)]
                st = [T.app("s", lift(j)) for j in range(L)]
                tot = ZERO
                for k in range(3):
                    amp = T.app("NET", *pt, *[T.app("S%d_%d" % (k, j), *st) for j in range(L)])
                    den = T.app("NET", *pt, *st)
                    tot = tot + T.app("M%d" % k, *st, tt * tt + 1 if pre else tt) * (T.exp(amp - den) if logm else amp * (ONE / den))
                C.eq("estimator pre=%s log=%s" % (pre, logm), f(p, s).term(), tot)


def battery(B):
    import numpy as np
    import itertools
    import jax
    import jax.numpy as jnp
    import jVMC
    import jVMC.operator as op
    from engine.world import close
    D = B.D
    L = 3
    allc = np.array(list(itertools.product([0, 1], repeat=L)))
    ix = lambda s: int("".join(str(int(x)) for x in s), 2)

    class TabOp(op.Operator):
        def __init__(self, sp, m, form, **kw):
            self.spt, self.mt, self.form = jnp.array(sp), jnp.array(m), form
            super().__init__(**kw)

        def compile(self):
            def f(s, *a):
                i = jnp.sum(s.ravel() * 2 ** jnp.arange(L)[::-1])
                sp, m = self.spt[i].reshape((-1,) + s.shape), self.mt[i]
                return (sp, m * a[0]) if a else (sp, m)
            return (f, lambda *a: tuple(x + 1.0 for x in a)) if self.form else f

    class TabPsi:
        def __init__(self, v, logarithmic):
            self.v, self.logarithmic = jnp.array(v), logarithmic
            self.net = self

        def __call__(self, s):
            i = jnp.sum(s.reshape(s.shape[:2] + (L,)) * 2 ** jnp.arange(L)[::-1], axis=-1)
            return (jnp.log(self.v) if self.logarithmic else self.v)[i]

        def apply(self, p, s):
            i = jnp.sum(s.ravel() * 2 ** jnp.arange(L)[::-1], axis=-1)
            return p * (jnp.log(self.v) if self.logarithmic else self.v)[i] if self.logarithmic else (self.v)[i] ** p

    def exact(c, sp, m, v, t=None, thr=True):
        out = np.zeros(c.shape[:2], complex)
        for d in range(c.shape[0]):
            for n in range(c.shape[1]):
                i = ix(c[d, n].ravel())
                mm = m[i] * (1 if t is None else t)
                for k in range(len(mm)):
                    if abs(mm[k]) > 1e-6 or not thr:
                        out[d, n] += mm[k] * v[ix(sp[i, k])] / v[i]
        return out
    quick = B.tier == "quick"
    for K in (1, 4) if quick else (1, 2, 5):
        for logm in (True, False):
            for form in (0, 1):
                for bs in (-1, 2, 3) if quick else (-1, 1, 2, 3, 4, 9):
                    for tdep in (form == 1 and bs != 3,) if quick else (False, True):
                        def f():
                            g = B.rng("t%d%s%d%d%s" % (K, logm, form, bs, tdep))
                            cnt = 0
                            sp = allc[g.integers(8, size=(8, K))]
                            m = g.normal(size=(8, K)) + 1j * g.normal(size=(8, K))
                            m[g.random((8, K)) < 0.5] = 0.0
                            tiny = g.random((8, K)) < 0.15
                            m[tiny] = 2e-6 * np.exp(1j)
                            v = np.exp(0.4 * g.normal(size=8) + 1j * g.normal(size=8))
                            o = TabOp(sp, m, form, ElocBatchSize=bs)
                            psi = TabPsi(v, logm)
                            for N in (1, 5, 8) if quick else (1, 3, 5, 8):
                                for shape in ((3, 1),) if N == 5 else ((3,),):
                                    c = allc[g.integers(8, size=(D, N))].reshape((D, N) + shape)
                                    t = float(g.normal()) + 2.0 if tdep else None
                                    e = exact(c, sp, m, v, None if t is None else (t + 1.0 if form else t))
                                    lps = jnp.log(psi.v)[jnp.array([[ix(x.ravel()) for x in r] for r in c])]
                                    for given in (True, False):
                                        r = o.get_O_loc(jnp.array(c), psi, lps if given else None, *(() if t is None else (t,)))
                                        close(r, e, 1e-9, what="O_loc N=%d shape=%s given=%s" % (N, shape, given))
                                        cnt += 1
                            return cnt
                        B.case("oloc/K%d/log%d/form%d/batch%d/time%d" % (K, logm, form, bs, tdep), f)

    def f():
        g = B.rng("est")
        for logm in (True, False):
            for form in (0, 1):
                sp = allc[g.integers(8, size=(8, 3))]
                m = g.normal(size=(8, 3)) + 0j
                v = np.exp(0.4 * g.normal(size=8) + 1j * g.normal(size=8))
                est = TabOp(sp, m, form).get_estimator_function(TabPsi(v, logm), 0.7)
                for s in allc:
                    e = exact(s[None, None], sp, m, v ** 1.3, 1.7 if form else 0.7, thr=False)
                    close(est(1.3, jnp.array(s)), e[0, 0], 1e-9, what="estimator at %s" % s)
    B.case("estimator", f)

    def f():
        # the same operator with and without further arguments, in any order
        g = B.rng("args")
        for form in (0, 1):
            sp = allc[g.integers(8, size=(8, 3))]
            m = g.normal(size=(8, 3)) + 0j
            v = np.exp(0.4 * g.normal(size=8) + 1j * g.normal(size=8))
            o, psi = TabOp(sp, m, form), TabPsi(v, True)
            c = allc[g.integers(8, size=(D, 4))]
            for t in (None, 0.6, None, (1.4, 2.0), 0.9):
                a = () if t is None else t if isinstance(t, tuple) else (t,)
                close(o.get_O_loc(jnp.array(c), psi, None, *a), exact(c, sp, m, v, None if not a else a[0] + form), 1e-9, what="arguments %s" % (a,))
    B.case("arguments", f)

    def f():
        # physical Hamiltonian on a real network against the dense matrix
        g = B.rng("ham")
        net = jVMC.nets.CpxRBM(numHidden=3, bias=True)
        psi = jVMC.vqs.NQS(net, seed=int(g.integers(1000)), batchSize=3)
        h = op.BranchFreeOperator()
        terms = []
        for k in range(L):
            h.add(op.scal_opstr(0.7, (op.Sx(k),)))
            h.add(op.scal_opstr(-1.1, (op.Sz(k), op.Sz((k + 1) % L))))
        c = allc[None].repeat(D, 0)
        v = np.exp(np.asarray(psi(jnp.array(c))))[0]
        M = np.zeros((8, 8))
        for s in allc:
            for k in range(L):
                z = s.copy(); z[k] = 1 - z[k]
                M[ix(s), ix(z)] += 0.7
                M[ix(s), ix(s)] += -1.1 * (2 * s[k] - 1) * (2 * s[(k + 1) % L] - 1)
        for bs in (-1, 3, 5):
            h.ElocBatchSize = bs
            close(h.get_O_loc(jnp.array(c), psi), np.tile((M @ v) / v, (D, 1)), 1e-7, what="dense comparison batch %d" % bs)
    B.case("dense", f)
