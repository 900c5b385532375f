"""C02  Global reductions: sums/means/(co)variances/gathers act on the union of all samples of all devices and processes."""


def symbolic(C):
    import numpy as np
    import jax.numpy as jnp
    from engine import harness as H, terms as T, logic, sym
    from engine.terms import lift, ONE, conj
    jv = H.load()
    mpi, comm = jv.mpi_wrapper, jv._comm
    Rd, D, N, K = sym.sdims("R, D, N, K")
    comm.Rdim = Rd
    H.DEVDIM[0] = D
    r = comm.rvar
    C.assume("MPI Allreduce(SUM)/allgather/bcast/Bcast meet their standard contracts (assumed on the dependency)",
             "jax.pmap(f) over the leading axis equals jax.vmap(f), psum over the mapped axis equals the sum over it",
             "floating-point arithmetic treated as exact real/complex arithmetic",
             "every process holds the same number of devices and samples per device (as pmap'd arrays do)")
    Rp, Dp, Np = comm.R, sym.dim_poly(D), sym.dim_poly(N)
    w1, w2 = ["jVMC.mpi_wrapper.global_sum", "jVMC.mpi_wrapper.jit_my_stuff"], []

    def S(f):
        a, b, c = T.fresh("a"), T.fresh("b"), T.fresh("c")
        return T.mk_sum([(a, Rp), (b, Dp), (c, Np)], f(a, b, c))

    for kind, dt in (("real", np.float64), ("complex", np.complex128)):
        X = lambda nm="x": sym.inp(nm + kind, (D, N, K), dt, prefix=(r,))
        P = lambda: sym.inp("p", (D, N), np.float64, prefix=(r,))
        x = lambda a, b, c, k: T.app("x" + kind, a, b, c, k)
        p = lambda a, b, c: T.app("p", a, b, c)
        with C.block("global_sum " + kind, w1):
            k = C.idx("k", K)
            g = mpi.global_sum(X())
            C.true("shape", tuple(g.shape) == (K,))
            C.eq("sum over all processes, devices, samples", g.term(k), S(lambda a, b, c: x(a, b, c, k)))
        with C.block("global_mean " + kind, ["jVMC.mpi_wrapper.global_mean"]):
            k = C.idx("k", K)
            g = mpi.global_mean(X(), P())
            C.true("shape", tuple(g.shape) == (K,))
            mean = lambda k: S(lambda a, b, c: p(a, b, c) * x(a, b, c, k))
            C.eq("mean = sum p x", g.term(k), mean(k))
        with C.block("global_variance " + kind, ["jVMC.mpi_wrapper.global_variance"]):
            k = C.idx("k", K)
            mean = lambda k: S(lambda a, b, c: p(a, b, c) * x(a, b, c, k))
            g = mpi.global_variance(X(), P())
            C.true("shape", tuple(g.shape) == (K,))
            m = mean(k)
            C.eq("variance = sum p |x-mean|^2", g.term(k), S(lambda a, b, c: p(a, b, c) * (x(a, b, c, k) - m) * conj(x(a, b, c, k) - m)))
        with C.block("global_covariance " + kind, ["jVMC.mpi_wrapper.global_covariance", "jVMC.mpi_wrapper._cov_helper"]):
            k, l = C.idx("k", K), C.idx("l", K)
            mean = lambda k: S(lambda a, b, c: p(a, b, c) * x(a, b, c, k))
            g = mpi.global_covariance(X(), P())
            C.true("shape", tuple(g.shape) == (K, K))
            C.eq("covariance = <x* x> - <x*><x>", g.term(k, l),
                 S(lambda a, b, c: p(a, b, c) * conj(x(a, b, c, k)) * x(a, b, c, l)) - conj(mean(k)) * mean(l))
        with C.block("gather " + kind, ["jVMC.mpi_wrapper.gather"]):
            k = C.idx("k", K)
            g = mpi.gather(X())
            C.true("shape", tuple(g.shape) == (Rd * D * N, K))
            ra, da, na = C.idx("ra", comm.R), C.idx("da", D), C.idx("na", N)
            C.eq("entry of (process,device,sample)", g.term(ra * Dp * Np + da * Np + na, k), x(ra, da, na, k))
    with C.block("global_sum scalar entries", w1):
        g = mpi.global_sum(sym.inp("y", (D, N), np.float64, prefix=(r,)))
        C.true("shape", tuple(g.shape) == ())
        C.eq("sum", g.term(), S(lambda a, b, c: T.app("y", a, b, c)))
    with C.block("global_sum matrix entries", w1):
        k, l = C.idx("k", K), C.idx("l", K)
        g = mpi.global_sum(sym.inp("z", (D, N, K, K), np.complex128, prefix=(r,)))
        C.eq("sum", g.term(k, l), S(lambda a, b, c: T.app("z", a, b, c, k, l)))

    # broadcast: executed once as the root and once as another process
    with C.block("bcast_unknown_size", ["jVMC.mpi_wrapper.bcast_unknown_size"]):
        k = C.idx("k", K)

        class Box:
            val = None
            dim = None
        for role in ("root", "other"):
            def bc(x=None, root=0, role=role):
                # the root of the collective call sends, every other process receives; another root sends its own (unrelated) value
                if root == (2 if role == "root" else 1):
                    if root == 2:
                        Box.dim = x
                    return x
                return Box.dim if root == 2 else None

            def Bc(spec, root=0, role=role):
                buf = spec[0] if isinstance(spec, (list, tuple)) else spec
                if root == (2 if role == "root" else 1):
                    if root == 2:
                        Box.val = buf
                elif root == 2:
                    sym.overwrite(buf, Box.val)
                else:
                    sym.overwrite(buf, sym.inp("otherproc", (5,), np.float64))

            class Cm:
                bcast = staticmethod(bc)
                Bcast = staticmethod(Bc)
            data = sym.inp("b", (5,), np.float64)
            with H.patched((mpi, "comm", Cm()), (mpi, "rank", 2 if role == "root" else 1)):
                if role == "other":
                    emp = H.NP.empty
                    with H.patched((H.NPProxy, "empty", staticmethod(lambda s, dtype=float, **k: sym.mark_np(sym.undefined((s,) if not isinstance(s, (tuple, list)) else tuple(s), np.dtype(dtype)))))):
                        out = mpi.bcast_unknown_size(None, root=2)
                else:
                    out = mpi.bcast_unknown_size(data, root=2)
            C.eqs("value on " + role, [(out.term(i), T.app("b", lift(i))) for i in range(5)])


def battery(B):
    import numpy as np
    import jax.numpy as jnp
    import jVMC.mpi_wrapper as mpi
    from engine.world import close
    R, D, r = B.size, B.D, B.rank

    def full(name, N, shape, cpx, uneven=False):
        g = B.rng(name)
        x = g.normal(size=(R, D, N) + shape)
        if cpx:
            x = x + 1j * g.normal(size=(R, D, N) + shape)
        p = g.uniform(0.1, 1, size=(R, D, N))
        return x, p / p.sum()

    for cpx in (False, True):
        t = "complex" if cpx else "real"
        for N in (1, 4):
            for shape in ((), (1,), (3,), (2, 3)):
                x, p = full("s%s%d%s" % (t, N, shape), N, shape, cpx)
                nm = "%s/N=%d/%s" % (t, N, shape)

                def f():
                    close(mpi.global_sum(jnp.array(x[r])), x.sum(axis=(0, 1, 2)), what="global_sum")
                B.case("sum/" + nm, f, x=x)
                if len(shape) >= 1:
                    def f():
                        close(mpi.global_mean(jnp.array(x[r]), jnp.array(p[r])), np.tensordot(p, x, axes=([0, 1, 2], [0, 1, 2])), what="global_mean")
                    B.case("mean/" + nm, f, x=x, p=p)
                if len(shape) == 1:
                    m = np.tensordot(p, x, axes=3)

                    def f():
                        close(mpi.global_variance(jnp.array(x[r]), jnp.array(p[r])), np.tensordot(p, np.abs(x - m) ** 2, axes=3), what="global_variance")
                    B.case("variance/" + nm, f, x=x, p=p)

                    def f():
                        y = (x - m).reshape(-1, shape[0])
                        close(mpi.global_covariance(jnp.array(x[r]), jnp.array(p[r])), np.einsum("n,nk,nl->kl", p.ravel(), y.conj(), y), what="global_covariance")
                    B.case("covariance/" + nm, f, x=x, p=p)

                def f():
                    close(mpi.gather(jnp.array(x[r])), x.reshape((-1,) + shape), what="gather")
                B.case("gather/" + nm, f, x=x)

    def f():
        for root in range(R):
            for n in (1, 6):
                d = B.rng("bc%d%d" % (root, n)).normal(size=n)
                close(mpi.bcast_unknown_size(np.array(d) if r == root else None, root=root), d, what="bcast_unknown_size")
    B.case("bcast", f)

    def f():
        # repeated use and alternating shapes: results do not depend on earlier calls
        for i in range(3):
            for shape in ((2,), (3,)):
                x, p = full("h%d%s" % (i, shape), 3, shape, True)
                close(mpi.global_sum(jnp.array(x[r])), x.sum(axis=(0, 1, 2)))
                close(mpi.global_mean(jnp.array(x[r]), jnp.array(p[r])), np.tensordot(p, x, axes=3))
    B.case("history", f)
