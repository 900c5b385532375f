"""C01  Work distribution: the shares of all processes partition the requested work exactly."""


def symbolic(C):
    from engine import harness as H, terms as T, logic, sym
    from engine.terms import lift, ONE
    jv = H.load()
    mpi = jv.mpi_wrapper
    n = T.var("n", int_=True, nonneg=True)
    R = T.var("R", int_=True, pos=True, nonneg=True)
    r = T.var("r", int_=True, nonneg=True)
    L = T.var("L", int_=True, pos=True, nonneg=True)
    c = T.var("c", int_=True, pos=True, nonneg=True)
    q, a = T.floordiv(n, R), T.mod(n, R)
    share = lambda rr: q + T.lt0(rr - a)                       # spec: share of process rr
    C.assume("process count R>=1, rank 0<=r<R, sample count n>=0, devices L>=1, chains c>=1 (mathematical integers)")

    def world(fn):
        def run():
            with H.patched((mpi, "rank", H.SymInt(r)), (mpi, "commSize", H.SymInt(R)), (mpi, "globNumSamples", 0),
                           *[(mpi, k, v) for k, v in H.HOST.items()]):
                return fn()
        return sym.explore(run)

    with C.block("distribute_sampling(n)", ["jVMC.mpi_wrapper.distribute_sampling"]):
        logic.bound_var(r, R)
        for k, ((mine, glob), cond, _) in enumerate(world(lambda: mpi.distribute_sampling(H.SymInt(n)))):
            H.eq_int(C, "share[path%d]" % k, H._ip(mine), share(r), cond)
            H.eq_int(C, "global count is n[path%d]" % k, H._ip(glob), n, cond)

    with C.block("first_sample_id", ["jVMC.mpi_wrapper.first_sample_id", "jVMC.mpi_wrapper.distribute_sampling"]):
        logic.bound_var(r, R)
        def f():
            mpi.distribute_sampling(H.SymInt(n))
            return mpi.first_sample_id()
        pre = lambda rr: rr * q + T.ite(T.lt0(rr - a), rr, a)    # spec: work items before process rr
        for k, (fid, cond, _) in enumerate(world(f)):
            H.eq_int(C, "offset[path%d]" % k, H._ip(fid), pre(r), cond)
        # lemma over the contracts: offsets are the running totals of the shares, starting at 0 and ending at n
        H.eq_int(C, "lemma offset(0)=0", pre(lift(0)), lift(0))
        H.eq_int(C, "lemma offset(r+1)=offset(r)+share(r)", pre(r + 1), pre(r) + share(r))
        H.eq_int(C, "lemma offset(R)=n", pre(R), n)
        C.smt_term("lemma share differs by at most one", "le", share(r) - q - 1)
        C.smt_term("lemma share nonnegative", "le", -share(r))

    with C.block("distribute_sampling(n,L,c)", ["jVMC.mpi_wrapper.distribute_sampling"]):
        logic.bound_var(r, R)
        M = L * c
        ceil = lambda m: T.floordiv(m + M - 1, M)
        for k, ((mine, glob), cond, _) in enumerate(world(lambda: mpi.distribute_sampling(
                H.SymInt(n), localDevices=H.SymInt(L), numChainsPerDevice=H.SymInt(c)))):
            H.eq_int(C, "per-chain share is ceil(share/(L*c))[path%d]" % k, H._ip(mine), ceil(share(r)), cond)
            H.eq_int(C, "global count[path%d]" % k, H._ip(glob), (a * ceil(q + 1) + (R - a) * ceil(q)) * M, cond)
        ceil1 = lambda m: T.floordiv(m + L - 1, L)
        for k, ((mine, glob), cond, _) in enumerate(world(lambda: mpi.distribute_sampling(H.SymInt(n), localDevices=H.SymInt(L)))):
            H.eq_int(C, "one chain per device by default: share[path%d]" % k, H._ip(mine), ceil1(share(r)), cond)
            H.eq_int(C, "one chain per device by default: global count[path%d]" % k, H._ip(glob), (a * ceil1(q + 1) + (R - a) * ceil1(q)) * L, cond)
        # lemma: the reported global count is the sum over processes of share*L*c, and is at least n
        per = lambda rr: T.ite(T.lt0(rr - a), ceil(q + 1), ceil(q))
        part = lambda rr: T.ite(T.lt0(rr - a), rr, a) * ceil(q + 1) + (rr - T.ite(T.lt0(rr - a), rr, a)) * ceil(q)
        X, Y = T.var("X", int_=True, nonneg=True), T.var("Y", int_=True, nonneg=True)
        partv = lambda rr: T.ite(T.lt0(rr - a), rr, a) * X + (rr - T.ite(T.lt0(rr - a), rr, a)) * Y
        H.eq_int(C, "lemma partial(0)=0", partv(lift(0)), lift(0))
        for nm, cd in (("below", T.lt0(r + 1 - a)), ("edge", T.eq0(r + 1 - a)), ("above", ONE - T.lt0(r - a))):
            H.eq_int(C, "lemma partial step " + nm, partv(r + 1) - partv(r), T.ite(T.lt0(r - a), X, Y), [cd])
        H.eq_int(C, "lemma partial(R)=global", partv(R), a * X + (R - a) * Y)
        m, Mv = T.var("m", int_=True, nonneg=True), T.var("Mv", int_=True, pos=True, nonneg=True)
        C.smt_term("lemma Mv*ceil(m/Mv) >= m", "le", m - Mv * T.floordiv(m + Mv - 1, Mv))
        qv, av = T.var("qv", int_=True, nonneg=True), T.var("av", int_=True, nonneg=True)
        z, Rm = T.var("Z1", int_=True, nonneg=True), T.var("Rm", int_=True, nonneg=True)
        # a*(q+1+z)+(R-a)*(q+z') >= R*q+a   (z, z' >= 0)
        z2 = T.var("Z2", int_=True, nonneg=True)
        C.eq("lemma total >= n (difference is a*z+(R-a)*z')", av * (qv + 1 + z) + Rm * (qv + z2) - ((av + Rm) * qv + av), av * z + Rm * z2)


def battery(B):
    import numpy as np
    import jVMC.mpi_wrapper as mpi
    S = (1, 2, 3, 4, 5, 7, 16)

    def world(R, f):
        out = []
        save = (mpi.rank, mpi.commSize, mpi.globNumSamples)
        try:
            for r in range(R):
                mpi.rank, mpi.commSize, mpi.globNumSamples = r, R, 0
                out.append(f(r))
        finally:
            mpi.rank, mpi.commSize, mpi.globNumSamples = save
        return out

    def plain():
        k = 0
        for R in S:
            for n in list(range(0, 40)) + [97, 100, 1000, 2 ** 40 + 3]:
                o = world(R, lambda r: mpi.distribute_sampling(n) + (mpi.first_sample_id(),))
                assert [x[1] for x in o] == [n] * R, ("global count", R, n, o)
                pos = 0
                for r, x in enumerate(o):
                    assert x[2] == pos, ("first index of rank %d with n=%d, %d ranks: %s, expected %d" % (r, n, R, x[2], pos))
                    pos += x[0]
                assert pos == n, ("shares do not add up to n", R, n, o)
                assert max(x[0] for x in o) - min(x[0] for x in o) <= 1, ("unbalanced", R, n, o)
                k += 1
        return k

    def dev():
        k = 0
        for R in S:
            for L in (1, 2, 3, 4):
                for c in (1, 2, 5, 8):
                    for n in (0, 1, 2, 3, 5, 7, 10, 11, 16, 33, 100, 127, 1001, 1234567):
                        o = world(R, lambda r: mpi.distribute_sampling(n, localDevices=L, numChainsPerDevice=c))
                        tot = sum(int(x[0]) for x in o) * L * c
                        assert all(int(x[1]) == tot for x in o), "n=%d ranks=%d devices=%d chains=%d: reported %s, distributed %d" % (n, R, L, c, [x[1] for x in o], tot)
                        assert tot >= n, ("fewer than requested", n, R, L, c, tot)
                        for r, x in enumerate(o):
                            s = n // R + (1 if r < n % R else 0)
                            assert int(x[0]) == -(-s // (L * c)), ("per-chain share", n, R, L, c, r, x)
                        k += 1
                for n in (0, 1, 5, 7, 16, 33):
                    one = world(R, lambda r: mpi.distribute_sampling(n, localDevices=L, numChainsPerDevice=1))
                    assert world(R, lambda r: mpi.distribute_sampling(n, localDevices=L)) == one, ("default number of chains", n, R, L)
        return k
    if B.size == 1:
        B.case("distribute/plain", plain)
        B.case("distribute/devices-chains", dev)

    def actual():
        # ranks really running: reported totals agree and offsets tile the range
        k = 0
        for n in (0, 1, 5, 8, 13, 64):
            s, g = mpi.distribute_sampling(n)
            f = mpi.first_sample_id()
            allv = B.comm.allgather((int(s), int(g), int(f)))
            pos = 0
            for (s_, g_, f_) in allv:
                assert f_ == pos and g_ == n, allv
                pos += s_
            assert pos == n
            k += 1
        return k
    B.case("distribute/ranks", actual)
