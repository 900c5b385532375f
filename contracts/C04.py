"""C04  ExactSampler: every basis state exactly once, exactly normalised probabilities."""


def symbolic(C):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import z3
    from engine import harness as H, terms as T, logic, sym
    from engine.terms import lift, ONE, ZERO
    jv = H.load()
    mpi, gd = jv.mpi_wrapper, jv.global_defs
    import jVMC.sampler as sp
    C.assume("contracts of mpi.distribute_sampling / first_sample_id (C01: contiguous disjoint ranges covering all states) and of mpi.global_sum (C02) are used, not their bodies",
             "number of devices, number and offset of this process's states are symbolic (any); local dimension 2..4 and number of sites 1..3 are fixed per obligation",
             "the number of basis states is at least the number of processes", "log amplitude is an arbitrary function of parameters and configuration")
    T.declare("LP", real=False)
    F_ = "jVMC.sampler.ExactSampler."
    FN = [F_ + "__init__", F_ + "get_basis", F_ + "_get_basis_ldim2", F_ + "_get_basis", F_ + "_compute_probabilities", F_ + "_normalize", F_ + "sample"]

    class Psi:
        def __init__(self):
            self.par = T.var("par0")
            self.log = []

        def get_parameters(self):
            return self.par

        def set_parameters(self, p):
            self.par = p
            self.log.append(p)
        params = property(get_parameters, set_parameters)
        parameters = params

        def __call__(self, x):
            a, par = sym.get_arr(x), self.par
            sh = a.shape[2:]
            ix = list(np.ndindex(*[int(k) for k in sh]))
            return sym.from_fun(a.shape[:2], np.complex128, lambda *i: T.app("LP", par, *[a.at(*i, *[lift(int(j)) for j in k]) for k in ix]))

    def probe_eq(a, b):
        """do two lists of integer terms agree at random values of the variables (decides which digit order is to be proved)"""
        for t in range(3):
            env = T.Env(seed=5 + t)
            H.assign(env, list(a) + list(b), t)
            if any(abs(T.neval(x, env) - T.neval(y, env)) > 0.5 for x, y in zip(a, b)):
                return False
        return True
    M, Fd, Dd = sym.sdims("M, F, D")
    Mp, Fp = sym.dim_poly(M), sym.dim_poly(Fd)
    quick = C.tier == "quick"
    for Dc in (1, 2, 3, Dd) if quick else (1, 2, 3, 5, Dd):
        for l, shape in ((2, (3,)), (3, (2,)), (4, (1, 2)), (2, (1, 2))) if quick else ((2, (3,)), (3, (2,)), (4, (1, 2)), (2, (2, 2)), (3, (3,)), (5, (2,)), (2, (1,))):
            with C.block("devices=%s lDim=%d shape=%s" % ("any" if Dc is Dd else Dc, l, shape), FN, limit=150):
                devs = [(i, lift(i)) for i in range(Dc)] if Dc is not Dd else [("any", C.idx("dev", Dd))]
                L = int(np.prod(shape))
                H.DEVDIM[0] = Dc
                calls = []

                def dist(n, *a, **k):
                    calls.append(int(n))
                    if a or k:
                        raise sym.Unsupported("distribute_sampling with further arguments")
                    return M, n
                gs = []

                def gsum(x):
                    gs.append(x)
                    return sym.inp("NRM%d" % len(gs), (1,), np.float64, pos=True)
                with H.patched((gd, "device_count", lambda: Dc), (mpi, "distribute_sampling", dist), (mpi, "first_sample_id", lambda: Fd),
                               (mpi, "global_sum", gsum)):
                    psi = Psi()
                    kap = T.var("kappa", pos=True, nonneg=True)
                    S = sp.ExactSampler(psi, shape, lDim=l, logProbFactor=sym.from_fun((), np.float64, lambda: kap))
                    C.true("all states are distributed", calls == [l ** L], detail=str(calls))
                    per = sym.dim_poly(S.basis.shape[1])
                    k = C.idx("k", S.basis.shape[1])
                    order = [None]
                    num = S.numStatesPerDevice
                    C.true("basis shape", str(tuple(S.basis.shape)) == str((Dc, S.basis.shape[1]) + tuple(shape)), detail=str(S.basis.shape))
                    # coverage: the first num_d states of device d, over all devices, are this process's M states, each once
                    nd = [num.term(i) for _, i in devs]
                    for (j, i), n in zip(devs, nd):
                        C.smt_term("device %s holds no state of another process" % j, "le", n * (i * per + n - Mp))
                        C.smt_term("device %s count non-negative" % j, "le", -n)
                        C.smt_term("device %s count fits" % j, "le", n - per)
                    if Dc is Dd:
                        # telescoping: the first i devices together hold min(M, i per) states, all of them min(M, D per) = M
                        mn = lambda x: T.ite(T.lt0(x - Mp), x, Mp)
                        C.smt_term("the first i + 1 devices hold min(M, (i + 1) per) states if the first i hold min(M, i per)", "eq", mn(devs[0][1] * per) + nd[0] - mn((devs[0][1] + 1) * per))
                        C.smt_term("all devices together hold this process's share", "le", Mp - sym.dim_poly(Dd) * per)
                    else:
                        C.smt_term("counts add up to this process's share", "eq", sum(nd, ZERO) - Mp)
                    # digits
                    ix = [[lift(int(q)) for q in j] for j in np.ndindex(*shape)]
                    for jd, i in devs:
                        x = Fp + i * per + k
                        got = [S.basis.term(i, k, *j) for j in ix]
                        dig = [T.mod(T.floordiv(x, lift(l ** j)), lift(l)) for j in range(L)]
                        if order[0] is None:
                            order = list(range(L)) if probe_eq(got, dig) else list(range(L))[::-1]
                        for j in range(L):
                            H.eq_int(C, "device %s: digit %d of the state number" % (jd, j), got[j], dig[order[j]])
                    # sample(): basis and counts arbitrary from here on
                    nb = S.basis.shape
                    S.basis = sym.inp("BAS", nb, np.int32, int_=True)
                    S.numStatesPerDevice = sym.inp("NS", (Dc,), np.int64, int_=True)
                    for rep, par in enumerate((None, T.var("q"))):
                        last = T.var("last%d" % rep)
                        S.lastNorm = sym.from_fun((), np.float64, lambda: last)
                        gs.clear()
                        psi.log.clear()
                        b, lp, p = S.sample() if par is None else S.sample(parameters=par)
                        P0 = T.var("par0") if par is None else par
                        C.true("one global normalisation %d" % rep, len(gs) == 1, detail=str(len(gs)))
                        for jd, i in devs:
                            s_ = [T.app("BAS", i, k, *j) for j in ix]
                            LP = T.app("LP", P0, *s_)
                            C.eq("log amplitudes %d device %s" % (rep, jd), lp.term(i, k), LP)
                            C.eqs("configurations %d device %s" % (rep, jd), [(b.term(i, k, *j), a) for j, a in zip(ix, s_)])
                            w = T.lt0(k - T.app("NS", i)) * T.exp((T.re(LP) - last) / kap)
                            C.eq("weight %d device %s" % (rep, jd), gs[0].term(i, k), w)
                            C.eq("p = weight / global sum %d device %s" % (rep, jd), p.term(i, k), w / T.app("NRM1", ZERO))
                        ln = S.lastNorm
                        C.eq("norm shift %d" % rep, ln.term(*([0] * len(ln.shape))), last + kap * T.log(T.app("NRM1", ZERO)))
                        C.true("parameters restored %d" % rep, psi.par == T.var("par0"), detail=str(psi.log))
    with C.block("lemma: digits determine the state", ["lemma"], limit=100):
        for l in (2, 3, 4):
            for L in (1, 2, 3):
                x = z3.Int("x")
                C.smt("l=%d L=%d" % (l, L), z3.Sum([((x / l ** i) % l) * l ** i for i in range(L)]) == x, [x >= 0, x < l ** L])
        M_, p_, D_, y, i, j, ki, kj, per = z3.Ints("M per D y i j ki kj per")
        C.smt("device ranges are disjoint", z3.Implies(i * per + ki == j * per + kj, z3.And(i == j, ki == kj)),
              [per > 0, 0 <= ki, ki < per, 0 <= kj, kj < per, i >= 0, j >= 0])


def battery(B):
    import numpy as np
    import jax.numpy as jnp
    import itertools
    import jVMC
    from engine.world import close
    g0 = B.rng("c04")
    quick = B.tier == "quick"

    def wide(P0, g, psi, allc, lpf, shape):
        """parameters for which the probabilities range over many orders of magnitude"""
        d, k = g.normal(size=P0.shape), 0.5
        while k < 100:
            psi.set_parameters(jnp.array(k * d))
            a = np.asarray(psi(jnp.array(np.array(allc).reshape((1, -1) + tuple(shape))).repeat(B.D, 0)))[0].real / lpf
            if a.max() - a.min() > 60:
                break
            k *= 1.3
        psi.set_parameters(jnp.array(P0))
        return k * d
    for l, shape, lpf in ((2, (3,), 0.5), (2, (2, 2), 0.5), (3, (2,), 1.0), (4, (2,), 1.0), (2, (5,), 1.0)) + (() if quick else ((3, (2, 2), 0.5), (4, (3,), 1.0), (2, (2, 3), 0.5), (5, (2,), 0.7))):
        def f():
            L = int(np.prod(shape))
            g = B.rng("c%d%s" % (l, shape))
            net = jVMC.nets.CpxRBM(numHidden=2, bias=True) if len(shape) == 1 else jVMC.nets.CpxCNN(F=(2, 2), channels=(2,), strides=(1, 1)) if False else jVMC.nets.CpxRBM(numHidden=2, bias=True)
            psi = jVMC.vqs.NQS(net, seed=11, batchSize=7)
            S = jVMC.sampler.ExactSampler(psi, shape, lDim=l, logProbFactor=lpf)
            P0 = np.asarray(psi.get_parameters())
            allc = [tuple(c) for c in itertools.product(range(l), repeat=L)]
            cnt = 0
            for rep, par in enumerate((None, P0 * (1 + 1e-5) + 1e-6, P0 * (1 - 3e-4), g.normal(size=P0.shape) * 0.3, 40.0 * P0, wide(P0, g, psi, allc, lpf, shape), None, "set")):
                if isinstance(par, str):
                    psi.set_parameters(P0 + 0.2)
                    P0 = np.asarray(psi.get_parameters())
                    par = None
                cfg, lp, p = S.sample() if par is None else S.sample(parameters=jnp.array(par), numSamples=3)
                close(psi.get_parameters(), P0, 1e-12, what="parameters after sample()")
                cfg, lp, p = np.asarray(cfg), np.asarray(lp), np.asarray(p)
                assert cfg.shape[:2] == lp.shape == p.shape and cfg.shape[0] == B.D and cfg.shape[2:] == tuple(shape), (cfg.shape, lp.shape, p.shape)
                assert cfg.min() >= 0 and cfg.max() < l
                parts = B.comm.allgather((cfg.reshape(-1, L), lp.ravel(), p.ravel(), [int(n) for n in np.asarray(S.numStatesPerDevice)]))
                c = np.concatenate([x[0] for x in parts]); q = np.concatenate([x[2] for x in parts]); a = np.concatenate([x[1] for x in parts])
                close(q.sum(), 1.0, 1e-10, what="total probability")
                assert all(min(x[3]) >= 0 for x in parts) and sum(sum(x[3]) for x in parts) == len(allc), [x[3] for x in parts]
                if par is not None:
                    psi.set_parameters(par)
                ref = np.asarray(psi(jnp.array(np.array(allc).reshape((1, -1) + tuple(shape)).repeat(B.D, 0))))[0]
                if par is not None:
                    psi.set_parameters(P0)
                lw = ref.real / lpf
                w = np.exp(lw - lw.max())
                w /= w.sum()
                hit = {}
                for i in range(len(c)):
                    if q[i] > 0:
                        assert tuple(c[i]) not in hit, "state %s listed twice with weight" % (c[i],)
                        hit[tuple(c[i])] = i
                for i, s in enumerate(allc):
                    if w[i] > 1e-120:
                        assert s in hit, "state %s missing" % (s,)
                        close(q[hit[s]] / w[i], 1., 1e-7, what="probability of %s (call %d)" % (s, rep))
                        close(a[hit[s]], ref[i], 1e-8, what="log amplitude of %s (call %d)" % (s, rep))
                        cnt += 1
            return cnt
        if B.size <= l ** int(np.prod(shape)):
            B.case("exact/l%d/%s/%s" % (l, shape, lpf), f)
