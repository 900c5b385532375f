"""C03  Sample statistics (mean, covariance, variance, derived observables) equal their weighted definitions."""


def symbolic(C):
    import numpy as np
    import jax
    import jax.numpy as jnp
    from engine import harness as H, terms as T, logic, sym
    from engine.terms import lift, ONE, conj
    jv = H.load()
    mpi, comm = jv.mpi_wrapper, jv._comm
    from jVMC.stats import SampledObs
    Rd, D, N, K, M = sym.sdims("R, D, N, K, M")
    comm.Rdim = Rd
    H.DEVDIM[0] = D
    r = comm.rvar
    Rp, Dp, Np = comm.R, sym.dim_poly(D), sym.dim_poly(N)
    C.assume("weights are positive in the symbolic obligations (weight zero: run-time contracts only)",
             "MPI and pmap contracts as in C02; floating point treated as exact arithmetic")

    def S(f, n=None):
        a, b, c = T.fresh("a"), T.fresh("b"), T.fresh("c")
        return T.mk_sum([(a, Rp), (b, Dp), (c, Np if n is None else n)], f(a, b, c))
    w = lambda a, b, c: T.app("w", a, b, c)
    W = lambda n=N: sym.inp("w", (D, n), np.float64, prefix=(r,), pos=True)
    # symbolic sample with K components; y has M components
    def X(nm, k, dt, n=N):
        return sym.inp(nm, (D, n) + k, dt, prefix=(r,))
    app = T.app

    for kind, dt in (("real", np.float64), ("complex", np.complex128)):
        x = lambda a, b, c, k: app("x" + kind, a, b, c, k)
        y = lambda a, b, c, k: app("y" + kind, a, b, c, k)
        mx = lambda k: S(lambda a, b, c: w(a, b, c) * x(a, b, c, k))
        my = lambda k: S(lambda a, b, c: w(a, b, c) * y(a, b, c, k))
        mk = lambda: (SampledObs(X("x" + kind, (K,), dt), W()), SampledObs(X("y" + kind, (M,), dt), W()))
        F = "jVMC.stats.SampledObs."
        with C.block("mean " + kind, [F + "__init__", F + "_compute_data_and_mean", F + "mean"]):
            o, _ = mk()
            k = C.idx("k", K)
            C.true("shape", tuple(o.mean().shape) == (K,))
            C.eq("mean = sum w x", o.mean().term(k), mx(k))
        with C.block("covar " + kind, [F + "covar"]):
            o, p = mk()
            k, l, m = C.idx("k", K), C.idx("l", K), C.idx("m", M)
            cov = S(lambda a, b, c: w(a, b, c) * conj(x(a, b, c, k) - mx(k)) * (y(a, b, c, m) - my(m)))
            C.eq("covariance of two observables", o.covar(p).term(k, m), cov)
            C.eq("covariance with itself", o.covar().term(k, l),
                 S(lambda a, b, c: w(a, b, c) * conj(x(a, b, c, k) - mx(k)) * (x(a, b, c, l) - mx(l))))
            C.eq("variance", o.var().term(k), S(lambda a, b, c: w(a, b, c) * conj(x(a, b, c, k) - mx(k)) * (x(a, b, c, k) - mx(k))))
            C.eq("frame: mean unchanged", o.mean().term(k), mx(k))
        with C.block("covar_var " + kind, [F + "covar_var", F + "covar_data"]):
            o, p = mk()
            k, m = C.idx("k", K), C.idx("m", M)
            # opaque means keep the polynomials small: the code's means are abstracted by their (proved) values
            cx, cy = T.var("mx", real=kind == "real"), T.var("my", real=kind == "real")
            d = lambda a, b, c: conj(x(a, b, c, k) - mx(k)) * (y(a, b, c, m) - my(m))
            cov = S(lambda a, b, c: w(a, b, c) * d(a, b, c))
            C.eq("covar_data mean = covar", o.covar_data(p).mean().term(k, m), cov)
            v = o.covar_var(p).term(k, m)
            C.eq("covar_var = E|d|^2-|E d|^2", v, S(lambda a, b, c: w(a, b, c) * d(a, b, c) * conj(d(a, b, c))) - cov * conj(cov))
        with C.block("transform " + kind, [F + "transform"]):
            o, _ = mk()
            k = C.idx("k", K)
            f = (lambda z: z ** 2 + 3 * z)
            C.eq("mean of f(x)", o.transform(nonLinearFun=f).mean().term(k),
                 S(lambda a, b, c: w(a, b, c) * (x(a, b, c, k) ** 2 + 3 * x(a, b, c, k))))
            C.eq("mean of identity transform", o.transform().mean().term(k), mx(k))
            g = lambda z: z * jnp.conj(z)
            C.eq("mean of |x|^2", o.transform(g).mean().term(k),
                 S(lambda a, b, c: w(a, b, c) * x(a, b, c, k) * conj(x(a, b, c, k))))
            V = sym.inp("V", (M, K), dt)
            oc = SampledObs(X("z" + kind, (K, 1), dt), W())
            m = C.idx("m", M)
            kk = T.fresh("kk")
            z = lambda a, b, c, k: app("z" + kind, a, b, c, k, lift(0))
            C.eq("linear map after function", oc.transform(nonLinearFun=f, linearFun=V).mean().term(m, 0),
                 S(lambda a, b, c: w(a, b, c) * T.mk_sum([(kk, sym.dim_poly(K))], app("V", m, kk) * (z(a, b, c, kk) ** 2 + 3 * z(a, b, c, kk)))))
        with C.block("select " + kind, [F + "select"]):
            o = SampledObs(X("x" + kind, (5,), dt), W())
            s = o.select(jnp.array([3, 1]))
            x5 = lambda a, b, c, k: app("x" + kind, a, b, c, lift(k))
            m5 = lambda k: S(lambda a, b, c: w(a, b, c) * x5(a, b, c, k))
            for j, q in enumerate((3, 1)):
                C.eq("mean[%d]" % j, s.mean().term(j), m5(q))
                for i, q2 in enumerate((3, 1)):
                    C.eq("covar[%d,%d]" % (j, i), s.covar().term(j, i),
                         S(lambda a, b, c: w(a, b, c) * conj(x5(a, b, c, q) - m5(q)) * (x5(a, b, c, q2) - m5(q2))))
        for (n, sl) in ((6, (0, 3, None)), (7, (1, None, 2)), (7, (0, None, 2)), (6, (None, None, None)), (6, (2, 5, None)), (7, (-3, None, None))):
            with C.block("subset N=%d %s %s" % (n, sl, kind), [F + "subset"]):
                o = SampledObs(X("x" + kind, (2,), dt, n), W(n))
                s = o.subset(start=sl[0], end=sl[1], step=sl[2])
                ids = list(range(n))[slice(*sl)]
                U = lambda f: T.mk_sum([(a_, Rp), (b_, Dp)], sum((f(a_, b_, lift(j)) for j in ids), T.ZERO))
                a_, b_ = T.fresh("a"), T.fresh("b")
                nrm = U(w)
                x2 = lambda a, b, c, k: app("x" + kind, a, b, c, lift(k))
                ms = lambda k: U(lambda a, b, c: w(a, b, c) * x2(a, b, c, k)) / nrm
                C.eq("mean over the subset, weights renormalised", s.mean().term(1), ms(1))
                if kind == "real":
                    C.eq("covariance over the subset", s.covar().term(0, 1),
                         U(lambda a, b, c: w(a, b, c) * conj(x2(a, b, c, 0)) * x2(a, b, c, 1)) / nrm - conj(ms(0)) * ms(1))
                C.eq("frame: original mean", o.mean().term(0), T.mk_sum([(a_, Rp), (b_, Dp)], sum((w(a_, b_, lift(j)) * x2(a_, b_, lift(j), 0) for j in range(n)), T.ZERO)))
        with C.block("tangent_kernel " + kind, [F + "tangent_kernel", "jVMC.mpi_wrapper.gather"]):
            o, _ = mk()
            tk = o.tangent_kernel()
            C.true("shape", tuple(tk.shape) == (Rd * D * N, Rd * D * N))
            i1 = [C.idx("ra", comm.R), C.idx("da", D), C.idx("na", N)]
            i2 = [C.idx("rb", comm.R), C.idx("db", D), C.idx("nb", N)]
            lin = lambda i: i[0] * Dp * Np + i[1] * Np + i[2]
            k = T.fresh("k")
            C.eq("entry", tk.term(lin(i1), lin(i2)),
                 T.mk_sum([(k, sym.dim_poly(K))], T.sqrt(w(*i1)) * T.sqrt(w(*i2)) * (x(*i1, k) - mx(k)) * conj(x(*i2, k) - mx(k))))

    # estimator interface
    for cpx in (False, True):
        with C.block("estimator/mean_and_grad %s" % ("complex" if cpx else "real"),
                     ["jVMC.stats.SampledObs.mean_and_grad", "jVMC.stats.flat_grad"]):
            L = 2
            cfg = sym.inp("s", (D, N, L), np.int64, prefix=(r,), dom=3)
            dt = np.complex128 if cpx else np.float64
            par = {"a": sym.inp("pa", (2, 1), dt), "b": sym.inp("pb", (1,), dt)}

            def est(p, s):
                u = p["a"][0, 0] * s[0] + p["b"][0] ** 2 * s[1] + p["a"][1, 0] * p["b"][0]
                return u * (1.0 + 2.0j)
            o = SampledObs(cfg, W(), estimator=est)
            A = [app("pa", lift(0), lift(0)), app("pa", lift(1), lift(0)), app("pb", lift(0))]
            s_ = lambda a, b, c, j: app("s", a, b, c, lift(j))
            E = lambda a, b, c: (A[0] * s_(a, b, c, 0) + A[2] ** 2 * s_(a, b, c, 1) + A[1] * A[2]) * lift(1 + 2j)
            C.eq("mean(params)", o.mean(par).term(0), S(lambda a, b, c: w(a, b, c) * E(a, b, c)))

            class Psi:
                def gradients(self, s):
                    return sym.inp("G", (D, N, P), np.complex128, prefix=(r,))
            mE0 = S(lambda a, b, c: w(a, b, c) * E(a, b, c))
            C.eq("variance after mean(params)", o.var().term(0), S(lambda a, b, c: w(a, b, c) * (E(a, b, c) - mE0) * conj(E(a, b, c) - mE0)))
            P = 6 if cpx else 3
            par2 = {"a": sym.inp("pa2", (2, 1), dt), "b": sym.inp("pb2", (1,), dt)}
            A2 = [app("pa2", lift(0), lift(0)), app("pa2", lift(1), lift(0)), app("pb2", lift(0))]
            E2 = lambda a, b, c: (A2[0] * s_(a, b, c, 0) + A2[2] ** 2 * s_(a, b, c, 1) + A2[1] * A2[2]) * lift(1 + 2j)
            mE2 = S(lambda a, b, c: w(a, b, c) * E2(a, b, c))
            for how in ("mean", "gradient"):
                m2 = o.mean(par2) if how == "mean" else o.mean_and_grad(Psi(), par2)[0]
                C.eq("%s at other parameters" % how, m2.term(0), mE2)
                C.eq("%s at other parameters, variance" % how, o.var().term(0), S(lambda a, b, c: w(a, b, c) * (E2(a, b, c) - mE2) * conj(E2(a, b, c) - mE2)))
                C.eq("%s at other parameters, mean again" % how, o.mean().term(0), mE2)
                C.eq("back at the first parameters (%s)" % how, o.mean(par).term(0), mE0)
                C.eq("back at the first parameters (%s), variance" % how, o.var().term(0), S(lambda a, b, c: w(a, b, c) * (E(a, b, c) - mE0) * conj(E(a, b, c) - mE0)))
            mean, grad = o.mean_and_grad(Psi(), par)
            C.eq("mean_and_grad mean", mean.term(0), S(lambda a, b, c: w(a, b, c) * E(a, b, c)))
            C.true("gradient shape", tuple(grad.shape) == (P,))
            dE = [lambda a, b, c: s_(a, b, c, 0), lambda a, b, c: A[2], lambda a, b, c: 2 * A[2] * s_(a, b, c, 1) + A[1]]
            order = [0, 1, 2]
            g2 = lambda a, b, c, k: 2 * T.re(app("G", a, b, c, lift(k)))
            if cpx:
                # leaf-wise: d/dRe then d/dIm
                comps = [(0, 1), (1, 1), (0, 1j), (1, 1j), (2, 1), (2, 1j)]
            else:
                comps = [(0, 1), (1, 1), (2, 1)]
            for k, (j, f) in enumerate(comps):
                mg = S(lambda a, b, c: w(a, b, c) * g2(a, b, c, k))
                mE = S(lambda a, b, c: w(a, b, c) * E(a, b, c))
                exp = S(lambda a, b, c: w(a, b, c) * (g2(a, b, c, k) - mg) * (E(a, b, c) - mE)) \
                    + S(lambda a, b, c: w(a, b, c) * dE[j](a, b, c) * lift(1 + 2j) * lift(f))
                C.eq("gradient[%d]" % k, grad.term(k), exp)


def battery(B):
    import numpy as np
    import jax.numpy as jnp
    import jax
    import jVMC.mpi_wrapper as mpi
    from jVMC.stats import SampledObs
    from engine.world import close
    R, D, r = B.size, B.D, B.rank

    def mkdata(name, N, shapes, cpx):
        g = B.rng(name)
        p = g.uniform(0.05, 1, size=(R, D, N))
        p = p / p.sum()
        out = []
        for s in shapes:
            x = g.normal(size=(R, D, N) + s)
            out.append(x + 1j * g.normal(size=x.shape) if cpx else x)
        return p, out

    def cov(p, a, b):
        p = p.ravel()
        a, b = a.reshape(len(p), -1), b.reshape(len(p), -1)
        return np.einsum("n,nk,nl->kl", p, (a - p @ a).conj(), b - p @ b)
    for cpx, N, zero in ((False, 2, False), (False, 5, False), (True, 2, False), (True, 5, False), (True, 5, True)):
        if True:
            nm = "%s/N=%d%s" % ("complex" if cpx else "real", N, "/samples of weight zero" if zero else "")
            p, (x, y, z) = mkdata(nm, N, ((3,), (2,), ()), cpx)
            if zero:                                   # e.g. padding of the exact sampler
                p[:, :, 3] = 0.
                p[R - 1, D - 1, 2] = 0.
                p = p / p.sum()
            flat = lambda a: a.reshape((-1,) + a.shape[3:])

            def f():
                o, q, s = [SampledObs(jnp.array(v[r]), jnp.array(p[r])) for v in (x, y, z)]
                close(o.mean(), p.ravel() @ flat(x), what="mean")
                close(s.mean(), [p.ravel() @ flat(z)], what="mean of scalar observable")
                close(o.covar(q), cov(p, x, y), what="covar")
                close(o.covar(), cov(p, x, x), what="covar(self)")
                close(o.var(), np.diag(cov(p, x, x)).real, what="var")
                close(s.covar(o), cov(p, z[..., None], x), what="covar scalar")
                d = np.einsum("nk,nl->nkl", (flat(x) - p.ravel() @ flat(x)).conj(), flat(y) - p.ravel() @ flat(y))
                v = np.einsum("n,nkl->kl", p.ravel(), np.abs(d - np.einsum("n,nkl->kl", p.ravel(), d)) ** 2)
                close(o.covar_data(q).mean(), cov(p, x, y), what="covar_data.mean")
                close(o.covar_data(q).var(), v, what="covar_data.var")
                close(o.covar_var(q), v, what="covar_var")
                close(o.mean(), p.ravel() @ flat(x), what="mean after other calls")
            B.case("moments/" + nm, f, p=p, x=x, y=y)

            def f():
                o = SampledObs(jnp.array(x[r]), jnp.array(p[r]))
                t = o.transform(nonLinearFun=lambda v: v ** 2)
                close(t.mean(), p.ravel() @ flat(x) ** 2, what="transform mean")
                close(t.covar(), cov(p, x ** 2, x ** 2), what="transform covar")
                V = B.rng("V").normal(size=(4, 3))
                oc = SampledObs(jnp.array(x[r][..., None]), jnp.array(p[r]))
                t = oc.transform(linearFun=jnp.array(V), nonLinearFun=lambda v: jnp.abs(v))
                close(t.mean()[:, 0], V @ (p.ravel() @ np.abs(flat(x))), what="linear transform")
            B.case("transform/" + nm, f, p=p, x=x)

            def f():
                o = SampledObs(jnp.array(x[r]), jnp.array(p[r]))
                s = o.select(jnp.array([2, 0]))
                close(s.mean(), (p.ravel() @ flat(x))[[2, 0]], what="select mean")
                close(s.covar(), cov(p, x, x)[np.ix_([2, 0], [2, 0])], what="select covar")
                close(s.covar(o), cov(p, x, x)[[2, 0]], what="select covar other")
            B.case("select/" + nm, f, p=p, x=x)

            def f():
                o = SampledObs(jnp.array(x[r]), jnp.array(p[r]))
                T_ = o.tangent_kernel()
                d = np.sqrt(p.ravel())[:, None] * (flat(x) - p.ravel() @ flat(x))
                close(T_, d @ d.conj().T, what="tangent kernel")
            B.case("tangent_kernel/" + nm, f, p=p, x=x)

            def f():
                n = 0
                for sl in ((0, N // 2 + 1, None), (None, None, 2), (1, None, 2), (1, None, None), (-2, None, None), (None, -1, None)):
                    if not len(range(N)[slice(*sl)]):
                        continue
                    o = SampledObs(jnp.array(x[r]), jnp.array(p[r]))
                    s = o.subset(start=sl[0], end=sl[1], step=sl[2])
                    ps, xs = p[:, :, slice(*sl)], x[:, :, slice(*sl)]
                    ps = ps / ps.sum()
                    close(s.mean(), ps.ravel() @ flat(xs), what="subset mean %s" % (sl,))
                    close(s.covar(), cov(ps, xs, xs), what="subset covar %s" % (sl,))
                    close(s.covar_var(s).shape, (3, 3), what="shape")
                    close(mpi.global_sum(s._weights), 1.0, what="subset weights")
                    close(o.mean(), p.ravel() @ flat(x), what="frame")
                    n += 1
                return n
            B.case("subset/" + nm, f, p=p, x=x)

            def f():
                s2 = o2 = SampledObs(jnp.array(x[r]), jnp.array(p[r])).subset(start=0, end=2)
                t = s2.transform(lambda v: v ** 2)
                ps, xs = p[:, :, :2], x[:, :, :2]
                ps = ps / ps.sum()
                close(t.mean(), ps.ravel() @ flat(xs) ** 2, what="transform after subset")
            B.case("chain/" + nm, f, p=p, x=x)

    def f(cpx):
        g = B.rng("est%d" % cpx)
        N, L = 4, 2
        P = 6 if cpx else 3
        cfg = g.integers(0, 2, size=(R, D, N, L))
        p = g.uniform(0.1, 1, size=(R, D, N))
        p /= p.sum()
        G = g.normal(size=(R, D, N, P)) + 1j * g.normal(size=(R, D, N, P))
        est = lambda q, s: (q["a"][0, 0] * s[0] + q["b"][0] ** 2 * s[1] + q["a"][1, 0] * q["b"][0]) * (1. + 2.j)

        class Psi:
            def gradients(self, s):
                return jnp.array(G[r])
        for t in range(2):
            A = g.normal(size=3) + (1j * g.normal(size=3) if cpx else 0)
            par = {"a": jnp.array(A[:2].reshape(2, 1)), "b": jnp.array(A[2:])}
            o = SampledObs(jnp.array(cfg[r]), jnp.array(p[r]), estimator=est)
            c = cfg.reshape(-1, 2)
            E = (A[0] * c[:, 0] + A[2] ** 2 * c[:, 1] + A[1] * A[2]) * (1 + 2j)
            close(o.mean(par), [p.ravel() @ E], what="estimator mean")
            m, gr = o.mean_and_grad(Psi(), par)
            close(m, [p.ravel() @ E], what="mean_and_grad mean")
            dE = np.stack([c[:, 0] + 0 * E, A[2] + 0 * E, 2 * A[2] * c[:, 1] + A[1]], 1) * (1 + 2j)
            if cpx:                                    # per leaf: real parts, then imaginary parts
                dE = np.stack([dE[:, 0], dE[:, 1], 1j * dE[:, 0], 1j * dE[:, 1], dE[:, 2], 1j * dE[:, 2]], 1)
            g2 = 2 * G.reshape(-1, P).real
            close(gr, cov(p, g2, E)[:, 0] + p.ravel() @ dE, what="gradient")
        # histories: every quantity refers to the parameters of the last evaluation
        o = SampledObs(jnp.array(cfg[r]), jnp.array(p[r]), estimator=est)
        qs = []
        for t in range(3):
            A = g.normal(size=3) + (1j * g.normal(size=3) if cpx else 0)
            qs.append((A, {"a": jnp.array(A[:2].reshape(2, 1)), "b": jnp.array(A[2:])}))
        for t, (k, how) in enumerate(((0, "mean"), (1, "grad"), (0, "mean"), (0, "mean"), (2, "mean"), (1, "mean"), (2, "grad"), (1, "mean"))):
            A, par = qs[k]
            c = cfg.reshape(-1, 2)
            E = (A[0] * c[:, 0] + A[2] ** 2 * c[:, 1] + A[1] * A[2]) * (1 + 2j)
            m = o.mean(par) if how == "mean" else o.mean_and_grad(Psi(), par)[0]
            close(m, [p.ravel() @ E], what="history %d: mean" % t)
            close(o.mean(), [p.ravel() @ E], what="history %d: mean again" % t)
            close(np.ravel(o.var()), np.ravel(cov(p, E, E)).real, what="history %d: variance" % t)
            close(np.ravel(o.covar()), np.ravel(cov(p, E, E)), what="history %d: covariance" % t)
    B.case("estimator", lambda: f(False))
    B.case("estimator with complex parameters", lambda: f(True))

    def f(cpx):
        """parameters of several axes: the gradient follows the flattening of every leaf"""
        g = B.rng("leaf%d" % cpx)
        N, L = 3, 2
        sh = {"a": (2, 3), "b": (3, 1, 2)}
        cfg = g.integers(0, 2, size=(R, D, N, L))
        p = g.uniform(0.1, 1, size=(R, D, N))
        p /= p.sum()
        P = 12 * (1 + cpx)
        G = g.normal(size=(R, D, N, P)) + 1j * g.normal(size=(R, D, N, P))
        K = {k: g.normal(size=(2,) + v) + 1j * g.normal(size=(2,) + v) for k, v in sh.items()}
        feat = lambda k, s: K[k][0] * s[0] + K[k][1] * (1 - s[1])
        est = lambda q, s: jnp.sum(q["a"] * feat("a", s)) + jnp.sum(q["b"] ** 2 * feat("b", s))

        class Psi:
            def gradients(self, s):
                return jnp.array(G[r])
        A = {k: g.normal(size=v) + (1j * g.normal(size=v) if cpx else 0) for k, v in sh.items()}
        o = SampledObs(jnp.array(cfg[r]), jnp.array(p[r]), estimator=est)
        m, gr = o.mean_and_grad(Psi(), {k: jnp.array(v) for k, v in A.items()})
        c = cfg.reshape(-1, 2)
        E = np.array([(A["a"] * feat("a", s)).sum() + (A["b"] ** 2 * feat("b", s)).sum() for s in c])
        close(m, [p.ravel() @ E], what="mean")
        rows = []
        for s in c:
            da, db = feat("a", s).ravel(), (2 * A["b"] * feat("b", s)).ravel()
            rows.append(np.concatenate([da, 1j * da, db, 1j * db] if cpx else [da, db]))
        close(gr, cov(p, 2 * G.reshape(-1, P).real, E)[:, 0] + p.ravel() @ np.array(rows), what="gradient")
    B.case("estimator, parameters of several axes", lambda: f(False))
    B.case("estimator, complex parameters of several axes", lambda: f(True))
