"""C16  ODE steppers: the returned value is the scheme's update for exactly the returned step, error within tolerance."""


def symbolic(C):
    import numpy as np
    import jax.numpy as jnp
    from engine import harness as H, terms as T, logic, sym
    from engine.terms import lift, ONE
    jv = H.load()
    from jVMC.util import stepper as st
    C.assume("the right-hand side is a function of (y, t, keyword arguments, sub-step number); it does not mutate its arguments",
             "floating point treated as exact real/complex arithmetic; time step, tolerance and maximal step positive")
    t, h, tol, mx = T.var("t"), T.var("h", pos=True), T.var("tol", pos=True), T.var("mxs", pos=True)
    sc = lambda v: sym.from_fun((), np.float64, lambda: v)

    def problem(K, dt, pointwise):
        """y: (K,), f uninterpreted: every component depends on all of y (or on its own component for symbolic K)"""
        real = dt == np.float64
        T.declare("f", real=real)
        calls = []

        def spec_f(yv, tt, k):
            """yv: index -> term; returns index -> term"""
            if pointwise:
                return lambda i: T.app("f", yv(i), tt, lift(k), lift(i), T.var("par"))
            comps = [yv(lift(j)) for j in range(K)]
            return lambda i: T.app("f", *comps, tt, lift(k), lift(i), T.var("par"))

        def f(y, tt, intStep=None, par=None, **extra):
            a = sym.get_arr(y)
            tp = T.lift(tt) if not hasattr(tt, "shape") else sym.get_arr(tt).at()
            calls.append(intStep)
            g = spec_f(lambda i: a.at(i), tp, intStep)
            pp = sym.get_arr(par).at()
            g0 = (lambda i: T.subst(g(i), {T.vid(T.var("par")): pp}))
            return sym.from_fun(a.shape, a.dtype, lambda i: g0(i))
        y = sym.inp("y0", (K,), dt)
        return y, f, spec_f, calls

    heun = lambda y, tt, d, F, a, b: (lambda i, k0=F(y, tt, a): y(i) + d / 2 * (k0(i) + F(lambda j: y(j) + d * k0(j), tt + d, b)(i)))
    Kd, = sym.sdims("K")
    par = T.var("par")
    for nm, K, pw in (("K=2 coupled", 2, False), ("any K, pointwise", Kd, True)):
        for dt in (np.float64, np.complex128):
            tag = "%s %s" % (nm, "real" if dt == np.float64 else "complex")
            y0 = lambda i: T.app("y0", i)
            with C.block("Euler " + tag, ["jVMC.util.stepper.Euler.step"]):
                y, f, F, calls = problem(K, dt, pw)
                i = C.idx("i", K)
                ii = [i] if pw else [lift(0), lift(1)]
                s = st.Euler(timeStep=sc(h))
                y1, used = s.step(sc(t), f, y, par=sc(par))
                for k in ii:
                    C.eq("y+dt f(y,t)[%s]" % T.show(k), y1.term(k), y0(k) + h * F(y0, t, 0)(k))
                C.eq("returned step", used.term(), h)
                C.true("sub-steps", calls == [0])
            for mode in ("own", "override"):
                with C.block("Heun %s %s" % (mode, tag), ["jVMC.util.stepper.Heun.step", "jVMC.util.stepper.Heun.set_dt"]):
                    y, f, F, calls = problem(K, dt, pw)
                    i = C.idx("i", K)
                    ii = [i] if pw else [lift(0), lift(1)]
                    s = st.Heun(timeStep=sc(T.var("h0", pos=True)))
                    s.set_dt(sc(h))
                    hh = h
                    kw = {}
                    if mode == "override":
                        hh = T.var("hov", pos=True)
                        kw = dict(dt=sc(hh))
                    y1, used = s.step(sc(t), f, y, par=sc(par), **kw)
                    for k in ii:
                        C.eq("y+dt/2(k0+k1)[%s]" % T.show(k), y1.term(k), heun(y0, t, hh, F, 0, 1)(k))
                    C.eq("returned step", used.term(), hh)
                    C.eq("own step unchanged", s.dt.term(), h)
                    C.true("sub-steps", calls == [0, 1])
            if pw == (dt == np.complex128):
                continue
            with C.block("AdaptiveHeun " + tag, ["jVMC.util.stepper.AdaptiveHeun.step"], limit=200):
                # loop: executed from an ARBITRARY step h (the loop state is (h, y0)); exits are taken after 1 or 2 iterations,
                # so the second iteration is checked from the state the first leaves behind.
                i = C.idx("i", K)
                ii = [i] if pw else [lift(0), lift(1)]
                nrm = T.declare("nrm", pos=True)
                n_exit = [0, 0]

                def run():
                    y, f, F, calls = problem(K, dt, pw)
                    s = st.AdaptiveHeun(timeStep=sc(h), tol=sc(tol), maxStep=sc(mx))
                    norms = []

                    def norm(v):
                        norms.append(v)
                        if len(norms) > 2:
                            raise Stop()
                        return sc(T.app("nrm", lift(len(norms))))
                    try:
                        y1, used = s.step(sc(t), f, y, normFunction=norm, par=sc(par))
                    except Stop:
                        return None
                    return y1, used, s, norms, calls, F

                class Stop(Exception):
                    pass
                npath = 0
                for res, cond, fixed in sym.explore(run):
                    if res is None:
                        continue
                    y1, used, s, norms, calls, F = res
                    u = sym.replace_atoms(sym.get_arr(used).at(), fixed)
                    n = len(norms)
                    n_exit[n - 1] += 1
                    P = "iter%d path%d " % (n, npath)
                    npath += 1
                    half = lambda y, tt, a, b, d, k0t: heun(y, tt, d, F, a, b)
                    mid_k0 = F(y0, t, 0)
                    d = u / 2
                    k10 = lambda j: F(lambda q: y0(q) + d * mid_k0(q), t + d, 2)(j)
                    mid = lambda j: y0(j) + d / 2 * (mid_k0(j) + k10(j))
                    k01 = F(mid, t + d, 3)
                    k11 = lambda j: F(lambda q: mid(q) + d * k01(q), t + u, 4)(j)
                    two = lambda j: mid(j) + d / 2 * (k01(j) + k11(j))
                    full = heun(y0, t, u, F, 0, 1)
                    for k in ii:
                        C.eq(P + "two half steps of the returned size[%s]" % T.show(k), sym.replace_atoms(y1.term(k), fixed), two(k))
                        C.eq(P + "controlled quantity is the deviation[%s]" % T.show(k), sym.replace_atoms(norms[-1].term(k), fixed), two(k) - full(k))
                    # acceptance: tol/norm >= 1 on this path  (norm, tol > 0)
                    nv = T.app("nrm", lift(n))
                    if n == 1:
                        C.eq(P + "first attempt uses the stored step", u, h)
                    nxt = sym.replace_atoms(sym.get_arr(s.dt).at(), fixed)
                    C.smt_poly(P + "next step <= maxStep", [("le", nxt - mx)], cond)
                    C.smt_poly(P + "next step <= 2*step", [("le", nxt - 2 * u)], cond)
                    C.smt_poly(P + "next step > 0", [("lt", -nxt)], cond)
                    C.smt_poly(P + "next step >= 0.2*step or = maxStep", [("le", lift(0.2) * u - nxt), ("eq", nxt - mx)], cond)
                    C.smt_poly(P + "deviation <= tol", [("le", nv - tol)], cond)
                    rule = [sym.get_arr(0.9 * (sc(tol) / sc(nv)) ** e).at() for e in (0.33333, 1 / 3)]
                    C.smt_poly(P + "next step = step * clip(0.9 * (tol / deviation)^(1/3), 0.2, 2), at most maxStep",
                               [("eq", nxt - mx), ("eq", nxt - lift(0.2) * u), ("eq", nxt - 2 * u)] + [("eq", nxt - u * r) for r in rule], cond)
                C.true("both exits explored", all(n_exit), detail=str(n_exit))


def battery(B):
    import numpy as np
    import jax.numpy as jnp
    from jVMC.util import stepper as st
    from engine.world import close

    def prob(seed, cpx):
        g = B.rng("p%d" % seed)
        K = int(g.integers(1, 5))
        A = g.normal(size=(K, K)) + (1j * g.normal(size=(K, K)) if cpx else 0)
        b = g.normal(size=K)
        y0 = g.normal(size=K) + (1j * g.normal(size=K) if cpx else 0)
        log = []

        def f(y, t, intStep=None, c=1.0, **kw):
            log.append((intStep, c, dict(kw)))
            if len(log) > 20000:
                raise AssertionError("no acceptable step found in 20000 evaluations")
            return jnp.array(np.tanh(t) * b + c * (A @ np.asarray(y)) * np.cos(t) + 0.1 * np.asarray(y) ** 2)
        return y0, f, log

    def heun(f, y, t, h, **k):
        k0 = f(y, t, intStep=0, **k)
        return y + h / 2 * (k0 + f(y + h * k0, t + h, intStep=1, **k))
    for cpx in (False, True):
        for s in range(4):
            def fe():
                y0, f, log = prob(s, cpx)
                y1, h = st.Euler(timeStep=0.07).step(0.3, f, jnp.array(y0), c=0.8)
                close(h, 0.07)
                close(y1, y0 + 0.07 * f(y0, 0.3, c=0.8), what="Euler")
                assert [x[0] for x in log][:1] == [0] and log[0][1] == 0.8
            B.case("Euler/%s%d" % (cpx, s), fe)

            def fh():
                y0, f, log = prob(s, cpx)
                S = st.Heun(timeStep=0.5)
                S.set_dt(0.07)
                y1, h = S.step(0.3, f, jnp.array(y0), c=0.8)
                assert [x[0] for x in log] == [0, 1], log
                close(h, 0.07)
                close(y1, heun(f, y0, 0.3, 0.07, c=0.8), what="Heun")
                y1, h = S.step(0.3, f, jnp.array(y0), c=0.8, dt=0.02)
                close(h, 0.02)
                close(y1, heun(f, y0, 0.3, 0.02, c=0.8), what="Heun with given dt")
            B.case("Heun/%s%d" % (cpx, s), fh)

            def fa():
                n = 0
                for tol, dt0, mx in ((1e-6, 0.3, 1.0), (1e-9, 1e-4, 1.0), (1e-3, 0.05, 0.06), (1e-7, 2.0, 0.4), (1e-2, 1e-3, 1.0)):
                    for norm in (None, lambda v: jnp.max(jnp.abs(v))):
                        y0, f, log = prob(s, cpx)
                        S = st.AdaptiveHeun(timeStep=dt0, tol=tol, maxStep=mx)
                        y, t = jnp.array(y0), 0.1
                        for _ in range(5):
                            dprop = S.dt
                            kw = {} if norm is None else dict(normFunction=norm)
                            y1, h = S.step(t, f, y, c=0.9, **kw)
                            g = lambda v, tt: f(v, tt, c=0.9)
                            yy = np.asarray(y)
                            full = heun(f, yy, t, h, c=0.9)
                            mid = heun(f, yy, t, h / 2, c=0.9)
                            two = heun(f, mid, t + h / 2, h / 2, c=0.9)
                            close(y1, two, tol=1e-10, what="adaptive step value for the returned step size")
                            e = (jnp.linalg.norm if norm is None else norm)(two - full)
                            assert float(e) <= tol * (1 + 1e-6) + 1e-15, "accepted error %s exceeds tolerance %s" % (e, tol)
                            assert 0 < float(S.dt) <= mx, ("next step", S.dt, mx)
                            assert float(S.dt) <= 2 * h * (1 + 1e-9), ("growth", S.dt, h)
                            assert float(S.dt) >= min(0.2 * h, mx) * (1 - 1e-9), ("shrink", S.dt, h)
                            assert h <= dprop * (1 + 1e-12), "used a larger step than proposed"
                            if float(e) > 1e-6 * np.abs(full - yy).max() and float(e) > 1e-12:
                                rule = min(mx, h * min(2., max(0.2, 0.9 * (tol / float(e)) ** (1 / 3))))
                                assert abs(float(S.dt) / rule - 1) < 1e-3, ("next step", float(S.dt), rule)
                            y, t = y1, t + h
                            n += 1
                return n
            B.case("AdaptiveHeun/%s%d" % (cpx, s), fa)

            def fr():
                # error estimates prescribed by the norm: slightly above the tolerance is rejected, at or below it accepted
                n = 0
                for errs, dt0, mx in (((1.0005e-3, 0.5e-3), 0.1, 1.), ((1.00001e-3, 1e-3), 0.1, 1.), ((1e-3,), 0.1, 1.), ((1.1e-3, 1.05e-3, 0.9e-3), 0.1, 1.), ((50e-3, 1e-5), 0.1, 1.),
                                      ((0.9e-3,), 0.5, 0.3), ((1.001e-3, 1.0001e-3, 0.99e-3), 0.5, 0.3), ((1e-9,), 0.2, 0.3), ((2e-3, 1e-9), 0.2, 0.1)):
                    y0, f, log = prob(s, cpx)
                    for lib in (np, jnp):
                        S = st.AdaptiveHeun(timeStep=dt0, tol=1e-3, maxStep=mx)
                        it = iter(errs)
                        ya = lib.array(y0)
                        y1, h = S.step(0.1, lambda *a, **k: lib.asarray(f(*a, **k)), ya, c=0.9, normFunction=lambda v: next(it))
                        rest = list(it)
                        assert not rest, "step accepted with a larger estimate than the tolerance: %s left of %s" % (rest, errs)
                        d = dt0
                        for e in errs[:-1]:
                            d = min(mx, d * min(2., max(0.2, 0.9 * (1e-3 / e) ** (1 / 3))))
                        assert abs(h / d - 1) < 1e-3, ("reported step", h, d, errs)
                        nd = min(mx, d * min(2., max(0.2, 0.9 * (1e-3 / errs[-1]) ** (1 / 3))))
                        assert abs(float(S.dt) / nd - 1) < 1e-3, ("next step", float(S.dt), nd, errs)
                        mid = heun(f, y0, 0.1, h / 2, c=0.9)
                        close(y1, heun(f, mid, 0.1 + h / 2, h / 2, c=0.9), tol=1e-10, what="adaptive step value after %s" % (errs,))
                        close(ya, y0, 0, "initial value of the caller")
                        n += 1
                return n
            B.case("AdaptiveHeun/prescribed estimates/%s%d" % (cpx, s), fr)
