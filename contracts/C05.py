"""C05  MCSampler.sample(): number of samples, amplitudes, weights, restored parameters, chain continuity."""


def symbolic(C):
    import numpy as np
    import jax
    import jax.numpy as jnp
    from engine import harness as H, terms as T, logic, sym, rng
    from engine.terms import lift, ONE, ZERO
    jv = H.load()
    mpi, gd = jv.mpi_wrapper, jv.global_defs
    import jVMC.sampler as sp
    C.assume("contracts of mpi.distribute_sampling (C01: reported = processes x devices x multiple x per-chain number), mpi.global_sum (C02) and of the sweep (C06) are used",
             "collected samples: any number of samples and chains; sample(): devices <= 2, chains, multipleOf and per-chain numbers fixed per obligation; configurations, parameters, amplitudes, mu and logProbFactor arbitrary")
    T.declare("LPSI", real=False)
    L = 2
    F_ = "jVMC.sampler.MCSampler."
    mu, kap = T.var("mu"), T.var("kappa", pos=True, nonneg=True)
    sv = lambda t, dt=np.float64: sym.from_fun((), dt, lambda: t)
    PV = lambda nm: [T.app(nm, lift(0))]

    class Net:
        logarithmic = True

        def __init__(self, gen=False):
            self.net = self
            self.is_generator = gen
            self.parameters = {"params": sym.inp("P0", (1,), np.float64)}
            self.gen_calls = []

        @property
        def params(self):
            return self.parameters["params"]

        @params.setter
        def params(self, v):
            self.parameters = {"params": v}

        def set_parameters(self, v):
            self.params = v

        def get_parameters(self):
            return self.params

        def __call__(self, s):
            if not isinstance(s, jax.core.Tracer):
                return None
            a, p = sym.get_arr(s), sym.get_arr(self.params)
            return sym.from_fun(a.shape[:2], np.complex128, lambda *i: T.app("LPSI", p.at(ZERO), *[a.at(*i, lift(j)) for j in range(L)]))

        def get_sampler_net(self):
            return (lambda p, y: jnp.real(sym.ufun("LPSI", p["params"], y))), self.parameters

        def sample(self, n, keys, parameters=None):
            self.gen_calls.append((n, keys, parameters))
            T.declare("GEN", int_=True, dom=2)
            pp = sym.get_arr((parameters or self.parameters)["params"])
            kk = sym.get_arr(keys)
            return sym.from_fun((keys.shape[0], n, L), np.int32, lambda d, i, j: T.app("GEN", pp.at(ZERO), kk.at(d, ZERO), kk.at(d, ONE), i, j))

    def check_weights(tag, cfg, lp, p, gs, Dc, n, P, gen, glob):
        if not C.true(tag + "shapes", tuple(cfg.shape) == (Dc, n, L) and tuple(lp.shape) == (Dc, n) and tuple(p.shape) == (Dc, n), detail=str((cfg.shape, lp.shape, p.shape, n))):
            return False
        for d in range(Dc):
            for i in range(n):
                e = T.app("LPSI", P, *[cfg.term(d, i, j) for j in range(L)])
                C.eq(tag + "amplitude of the sample [%d,%d]" % (d, i), lp.term(d, i), e)
                if gen:
                    v = p.term(d, i) if isinstance(p, sym.SymTracer) else None
                    C.eq(tag + "uniform weight [%d,%d]" % (d, i), v, ONE / glob) if v is not None else C.true(tag + "uniform weight [%d,%d]" % (d, i), abs(float(p[d, i]) * glob - 1) < 1e-12)
                else:
                    w = T.exp((ONE / kap - mu) * T.re(e))
                    w0 = w if (d, i) == (0, 0) else w0
                    C.eq(tag + "weight proportional to |psi|^(1/logProbFactor - mu) [%d,%d]" % (d, i), gs[0].term(d, i) * w0, gs[0].term(0, 0) * w)
                    C.eq(tag + "normalised weight [%d,%d]" % (d, i), p.term(d, i) * T.app("NRM", ZERO), gs[0].term(d, i))

    for Dc, Cc, mult, n in ((1, 2, 1, 2), (2, 1, 1, 2), (1, 2, 3, 1), (2, 2, 4, 1), (1, 3, 2, 1), (1, 4, 2, 1)):
        with C.block("MCMC devices=%d chains=%d multipleOf=%d" % (Dc, Cc, mult), [F_ + "sample", F_ + "_get_samples_mcmc", F_ + "__init__", F_ + "_get_samples"], limit=200), rng.symbolic():
            H.DEVDIM[0] = Dc
            calls, gs = [], []

            def dist(N, localDevices=None, numChainsPerDevice=1):
                calls.append((N, localDevices, int(numChainsPerDevice)))
                return n, 1000 * int(numChainsPerDevice)

            def gsum(x):
                gs.append(x)
                return sym.inp("NRM", (1,), np.float64, pos=True)
            for c in range(Cc):
                for j in range(L):
                    T.declare("W%d%d" % (c, j), int_=True, dom=2)
            T.declare("WL", real=True)
            T.declare("WK", int_=True)
            sweeps = []

            def sweep(states, la, key, npd, nac, params, steps, up, ua, net=None):
                sweeps.append((steps, up, ua))
                a = (states, la, key, params["params"], jnp.asarray(steps), net(params, states[0]))
                return (jnp.stack([jnp.stack([sym.ufun("W%d%d" % (c, j), *a, dtype=np.int32) for j in range(L)]) for c in range(Cc)]),
                        jnp.stack([sym.ufun("WL", *a, jnp.asarray(c), dtype=np.float64) for c in range(Cc)]),
                        jnp.stack([sym.ufun("WK", *a, jnp.asarray(c), dtype=np.uint32) for c in range(2)]), npd + steps, nac + steps)
            with H.patched((gd, "device_count", lambda: Dc), (mpi, "distribute_sampling", dist), (mpi, "global_sum", gsum)):
                net = Net()
                prop = lambda k, s, i: s
                S = sp.MCSampler(net, (L,), rng.key("key0"), updateProposer=prop, numChains=Cc, numSamples=77, thermalizationSweeps=1, sweepSteps=2)
                S.mu, S.logProbFactor = sv(mu), sv(kap)
                S.states = sym.inp("s", (Dc, Cc, L), np.int32, dom=2)
                S.key = rng.key("key", shape=(Dc,))
                S._sweep = sweep
                nd = n * int(np.lcm(Cc, mult))
                for rep, (par, N) in enumerate(((None, None), (sym.inp("Q", (1,), np.float64), 5), (None, 9))):
                    if rep == 2:
                        if C.tier == "quick" and Dc * Cc > 2:
                            break
                        net.params = sym.inp("P1", (1,), np.float64)      # parameters changed between calls (e.g. by an integrator)
                        S.set_number_of_samples(13)
                        N = None
                    gs.clear(); calls.clear(); sweeps.clear()
                    s0, k0 = S.states, S.key
                    kw = dict(multipleOf=mult)
                    if N is not None:
                        kw["numSamples"] = N
                    if par is not None:
                        kw["parameters"] = par
                    cfg, lp, p = S.sample(**kw)
                    P = T.app("Q", ZERO) if par is not None else T.app("P1" if rep == 2 else "P0", ZERO)
                    tag = "call %d: " % rep
                    if not C.struct(tag + "distribution of the work", len(calls) == 1):
                        break
                    C.true(tag + "requested number distributed over devices and chains", calls[0][0] == (N if N is not None else (13 if rep == 2 else 77)) and
                           calls[0][1] == Dc and calls[0][2] % Cc == 0 and calls[0][2] % mult == 0, detail=str(calls))
                    nd = n * calls[0][2]
                    C.true(tag + "reported number", S.get_last_number_of_samples() == 1000 * calls[0][2])
                    if check_weights(tag, cfg, lp, p, gs, Dc, nd, P, False, None) is False:
                        break
                    C.eq(tag + "parameters of the network restored", net.params.term(0), T.app("P1" if rep == 2 else "P0", ZERO))
                    # continuity: the chain continues from its last state with probabilities re-evaluated for the sampling parameters
                    for d in range(Dc):
                        cur = [s0.term(d, c, j) for c in range(Cc) for j in range(L)]
                        la = [mu * T.re(T.app("LPSI", P, *[s0.term(d, c, j) for j in range(L)])) for c in range(Cc)]
                        kk = [k0.term(d, c) for c in range(2)]
                        def step(cur, la, kk, st):
                            a = cur + la + kk + [P, lift(st), T.re(T.app("LPSI", P, *cur[:L]))]
                            return ([T.app("W%d%d" % (c, j), *a) for c in range(Cc) for j in range(L)], [T.app("WL", *a, lift(c)) for c in range(Cc)], [T.app("WK", *a, lift(c)) for c in range(2)])
                        if rep == 2 and C.tier == "quick":
                            continue
                        cur, la, kk = step(cur, la, kk, 2)
                        for i in range(min(nd // Cc, 2)):
                            cur, la, kk = step(cur, la, kk, 2)
                            for c in range(Cc):
                                C.eqs(tag + "device %d sample %d chain %d continues the chain" % (d, i, c), [(cfg.term(d, i * Cc + c, j), cur[c * L + j]) for j in range(L)])
                        if nd // Cc <= 2:
                            C.eqs(tag + "device %d: chain state kept" % d, [(S.states.term(d, c, j), cur[c * L + j]) for c in range(Cc) for j in range(L)] + [(S.key.term(d, c), kk[c]) for c in range(2)])
    # ---- the collected sample for an arbitrary number of samples and chains: loop rule for the scan over sweeps
    with C.block("collected samples, any number of samples and chains", [F_ + "_get_samples"], limit=100), rng.symbolic():
        H.DEVDIM[0] = 1
        NN, CC = sym.sdims("Ns, Cc")
        Cp = sym.dim_poly(CC)
        with H.patched((gd, "device_count", lambda: 1)):
            S = sp.MCSampler(Net(), (L,), rng.key("key0"), updateProposer=lambda k, s, i: s, numChains=2, thermalizationSweeps=1, sweepSteps=2)
        for j in range(L):
            T.declare("WS%d" % j, int_=True)
        T.declare("WSL", real=True)
        T.declare("WSK", int_=True)
        shapes = [((CC, L), np.int32), ((CC,), np.float64), ((2,), np.uint32), ((1,), np.int64), ((1,), np.int64)]
        prop, arg = (lambda k, s, i: s), sym.inp("arg", (1,), np.float64)
        bad = []

        def sweep(states, la, key, npd, nac, params, steps, up, ua, **kw):
            if up is not prop or ua is not arg:
                bad.append("proposer")
            pr = (key, params["params"], jnp.asarray(steps))
            row = lambda nm, dt: jax.vmap(lambda s, l: sym.ufun(nm, s, l, *pr, dtype=dt))(states, la)
            return (jnp.stack([row("WS%d" % j, np.int32) for j in range(L)], axis=1), row("WSL", np.float64), jnp.stack([sym.ufun("WSK", *pr, jnp.asarray(c), dtype=np.uint32) for c in range(2)]),
                    npd + steps, nac + 2 * steps)

        def spec(fun, st, steps):
            """one sweep, as terms: fun(leaf, *index) -> the five arrays"""
            pr = [fun(2, lift(c)) for c in range(2)] + [T.app("Q", ZERO), st]
            a = lambda c: [fun(0, c, lift(j)) for j in range(L)] + [fun(1, c)] + pr
            return [lambda c, j: T.app("WS%d" % j, *a(c)), lambda c: T.app("WSL", *a(c)), lambda c: T.app("WSK", *pr, lift(c)), lambda i: fun(3, ZERO) + st, lambda i: fun(4, ZERO) + 2 * st]
        fam = lambda nm, k, *pre: sym.inp("%s%d" % (nm, k), pre + shapes[k][0], shapes[k][1], int_=shapes[k][1] != np.float64)
        i, c = C.idx("i", NN), C.idx("c", CC)
        fn = lambda nm, *pre: lambda k, *ix: T.app("%s%d" % (nm, k), *pre, *ix)
        seen = []
        real = jax.lax.scan
        pick = lambda k: [(c, lift(j)) for j in range(L)] if k == 0 else [(c,)] if k == 1 else [(lift(x),) for x in range(shapes[k][0][0])]

        def pairs(k, got, w):
            return [(got.term(*ix), w[k](*(ix if k != 0 else (ix[0], ix[1].as_int())) if k != 2 else (ix[0].as_int(),))) for ix in pick(k)]

        def roles(leaves):
            """which part of the chains' state each carried array is (recognised by its value after thermalisation)"""
            w, r = spec(fn("INI"), lift(15), 15), []
            for x in leaves:
                r.append(next((k for k in range(5) if k not in r and tuple(x.shape) == shapes[k][0] and all(T.is_zero(a - b) for a, b in pairs(k, x, w))), None))
            return r if None not in r else list(range(5)) if [tuple(x.shape) for x in leaves] == [x[0] for x in shapes] else None

        def scan(f, init, xs=None, length=None, **kw):
            if length is not NN and length != NN or xs is not None:
                return real(f, init, xs, length=length, **kw)
            leaves, tree = jax.tree_util.tree_flatten(init)
            ro = roles(leaves) if len(leaves) == 5 else None
            if ro is None:
                raise sym.Unsupported("carried state not recognised")
            put = lambda xs: jax.tree_util.tree_unflatten(tree, xs)
            one = f(put([fam("ONE", k) for k in ro]), None)
            by = lambda t: {k: x for k, x in zip(ro, jax.tree_util.tree_leaves(t))}
            seen.append((by(init), by(one[0])))
            return put([fam("END", k) for k in ro]), jax.vmap(lambda *c: f(put(list(c)), None)[1])(*[fam("CAR", k, NN) for k in ro])
        init = [fam("INI", k) for k in range(5)]
        with H.patched((jax.lax, "scan", scan)):
            meta, cfg = S._get_samples({"params": sym.inp("Q", (1,), np.float64)}, NN, 3, 5, *init, prop, arg, (L,), sweepFunction=sweep)
        if C.struct("samples collected by one scan", len(seen) == 1 and len(meta) == 5, detail=str(len(seen))):
            C.true("proposer and its argument are used", not bad, detail=str(bad))
            C.true("one row per chain and sweep", len(cfg.shape) == 2 and cfg.shape[1] == L and T.is_zero(sym.dim_poly(cfg.shape[0]) - sym.dim_poly(NN) * Cp), detail=str(cfg.shape))
            w = spec(fn("CAR", i), lift(5), 5)
            C.eqs("sample i*chains+c is the state of chain c after its sweep number i", [(cfg.term(i * Cp + c, lift(j)), w[0](c, j)) for j in range(L)])
            for tag, got, w in (("thermalisation of the given number of sweeps comes first", seen[0][0], spec(fn("INI"), lift(15), 15)), ("the next sweep continues from the state reached", seen[0][1], spec(fn("ONE"), lift(5), 5))):
                C.eqs(tag, [x for k in range(5) for x in pairs(k, got[k], w)])
            if C.struct("order of the returned state", all(tuple(x.shape) == sh for x, (sh, _) in zip(meta, shapes))):
                C.eqs("the chains end with the last state", [(meta[k].term(*ix), T.app("END%d" % k, *ix)) for k in range(3) for ix in pick(k)])
    # ---- weights for an arbitrary number of devices and samples
    with C.block("weights, any number of devices and samples", [F_ + "sample"], limit=60), rng.symbolic():
        DD, NN = sym.sdims("D, Ns")
        gs = []

        def gsum(x):
            gs.append(x)
            return sym.inp("NRM", (1,), np.float64, pos=True)
        with H.patched((gd, "device_count", lambda: 1)):
            H.DEVDIM[0] = 1
            S = sp.MCSampler(Net(), (L,), rng.key("key0"), updateProposer=lambda k, s, i: s, numChains=2)
        H.DEVDIM[0] = DD
        S.mu, S.logProbFactor = sv(mu), sv(kap)
        cf, am = sym.inp("CF", (DD, NN, L), np.int32, int_=True), sym.inp("AM", (DD, NN), np.complex128)
        d, i = C.idx("d", DD), C.idx("i", NN)
        for kw in (dict(), dict(numSamples=9), dict(numSamples=9, multipleOf=3), dict(parameters=sym.inp("Q", (1,), np.float64))):
            got = []
            gs.clear()
            S._get_samples_mcmc = lambda *a, **k: got.append((a, k)) or (cf, am)
            with H.patched((mpi, "global_sum", gsum)):
                cfg, lp, p = S.sample(**kw)
            tag = "%s: " % ", ".join(kw)
            if not C.struct(tag + "one sample", len(got) == 1 and len(gs) == 1):
                continue
            C.eqs(tag + "configurations and amplitudes handed out", [(cfg.term(d, i, lift(j)), T.app("CF", d, i, lift(j))) for j in range(L)] + [(lp.term(d, i), T.app("AM", d, i))])
            w = lambda d, i: T.exp((ONE / kap - mu) * T.re(T.app("AM", d, i)))
            d2, i2 = C.idx("d2", DD), C.idx("i2", NN)
            C.true(tag + "shape of the weights", tuple(p.shape) == (DD, NN), detail=str(p.shape))
            C.eq(tag + "divided by the sum over the whole sample", p.term(d, i) * T.app("NRM", ZERO), gs[0].term(d, i))
            C.eq(tag + "proportional to |psi|^(1/logProbFactor - mu)", gs[0].term(d, i) * w(d2, i2), gs[0].term(d2, i2) * w(d, i))
    for orb in (False, True):
        with C.block("direct sampling, any number of devices and samples%s" % (", symmetrised" if orb else ""), [F_ + "sample", F_ + "_get_samples_gen"] + ([F_ + "_randomize_samples"] if orb else []), limit=100), rng.symbolic():
            DD, NN = sym.sdims("D, Ns")
            calls = []

            def dist(N, localDevices=None, numChainsPerDevice=1):
                calls.append((N, localDevices, numChainsPerDevice))
                return NN, sv(T.var("glob", pos=True))
            H.DEVDIM[0] = 1
            with H.patched((gd, "device_count", lambda: 1)):
                net = Net(True)
                S = sp.MCSampler(net, (L,), rng.key("key0"), numSamples=77)
            H.DEVDIM[0] = DD
            with H.patched((gd, "device_count", lambda: DD), (mpi, "distribute_sampling", dist)):
                S.key = rng.key("key", shape=(DD,))
                if orb:
                    S.orbit = jnp.array([np.eye(2, dtype=int), np.eye(2, dtype=int)[::-1]])
                d, i = C.idx("d", DD), C.idx("i", NN)
                for rep, kw in enumerate((dict(), dict(multipleOf=3, parameters=sym.inp("Q", (1,), np.float64), numSamples=31))):
                    calls.clear(); net.gen_calls.clear()
                    mult = kw.get("multipleOf", 1)
                    cfg, lp, p = S.sample(**kw)
                    P = T.app("Q" if "parameters" in kw else "P0", ZERO)
                    tag = "call %d: " % rep
                    if not C.struct(tag + "one call of the generator", len(net.gen_calls) == 1 and len(calls) == 1):
                        break
                    C.true(tag + "requested number distributed over the devices", calls[0][0] == kw.get("numSamples", 77) and calls[0][1] == DD and calls[0][2] == mult, detail=str(calls))
                    C.true(tag + "shapes", tuple(cfg.shape) == (DD, mult * NN, L) and tuple(lp.shape) == (DD, mult * NN) == tuple(p.shape), detail=str((cfg.shape, lp.shape, p.shape)))
                    C.eq(tag + "amplitude of the sample", lp.term(d, i), T.app("LPSI", P, *[cfg.term(d, i, lift(j)) for j in range(L)]))
                    C.eq(tag + "uniform weight", p.term(d, i), ONE / T.var("glob", pos=True))
                    kk = sym.get_arr(net.gen_calls[0][1])
                    g = [T.app("GEN", P, kk.at(d, ZERO), kk.at(d, ONE), i, lift(j)) for j in range(L)]
                    if not orb:
                        C.eqs(tag + "samples of the generator", [(cfg.term(d, i, lift(j)), g[j]) for j in range(L)])
                    C.eq(tag + "parameters of the network restored", net.params.term(0), T.app("P0", ZERO))
    for Dc, mult, n in ((1, 1, 3), (2, 1, 2), (2, 3, 1), (1, 2, 2)):
        for orb in (False, True):
            with C.block("direct sampling devices=%d multipleOf=%d%s" % (Dc, mult, " symmetrised" if orb else ""),
                         [F_ + "sample", F_ + "_get_samples_gen"] + ([F_ + "_randomize_samples"] if orb else []), limit=150), rng.symbolic():
                H.DEVDIM[0] = Dc
                calls = []

                def dist(N, localDevices=None, numChainsPerDevice=1):
                    calls.append((N, localDevices, int(numChainsPerDevice)))
                    return n, 60
                with H.patched((gd, "device_count", lambda: Dc), (mpi, "distribute_sampling", dist)):
                    net = Net(True)
                    S = sp.MCSampler(net, (L,), rng.key("key0"), numSamples=77)
                    S.key = rng.key("key", shape=(Dc,))
                    if orb:
                        S.orbit = jnp.array([np.eye(2, dtype=int), np.eye(2, dtype=int)[::-1]])
                    for rep, par in enumerate((None, sym.inp("Q", (1,), np.float64))):
                        calls.clear(); net.gen_calls.clear()
                        kw = dict(multipleOf=mult) if par is None else dict(multipleOf=mult, parameters=par, numSamples=31)
                        k0 = S.key
                        cfg, lp, p = S.sample(**kw)
                        P = T.app("P0", ZERO) if par is None else T.app("Q", ZERO)
                        tag = "call %d: " % rep
                        if not C.struct(tag + "distribution of the work", len(calls) == 1 and len(net.gen_calls) == 1):
                            break
                        C.true(tag + "requested number distributed", calls[0][:2] == (77 if par is None else 31, Dc) and calls[0][2] % mult == 0, detail=str(calls))
                        if check_weights(tag, cfg, lp, p, None, Dc, n * calls[0][2], P, True, 60) is False:
                            break
                        C.true(tag + "reported number", S.get_last_number_of_samples() == 60)
                        C.eq(tag + "parameters of the network restored", net.params.term(0), T.app("P0", ZERO))
                        N2, keys, pp = net.gen_calls[0]
                        gk = sym.get_arr(keys)
                        ks = [S.key.term(d, 0) for d in range(Dc)] + [keys.term(d, 0) for d in range(Dc)]
                        C.streams(tag + "fresh independent streams per device and for the next call", ks)
                        for d in range(Dc):
                            for i in range(n * calls[0][2]):
                                g = [T.app("GEN", P, keys.term(d, 0), keys.term(d, 1), lift(i), lift(j)) for j in range(L)]
                                code = [cfg.term(d, i, j) for j in range(L)]
                                if not orb:
                                    C.eqs(tag + "network sample [%d,%d]" % (d, i), list(zip(code, g)))
                                else:
                                    dr = {tuple(a) for t in code for _, a in rng.find_apps(t, {"RI2"})}
                                    if C.struct(tag + "one random symmetry operation per sample [%d,%d]" % (d, i), len(dr) == 1, detail=str(len(dr))):
                                        a = list(dr)[0]
                                        C.streams(tag + "own stream [%d,%d]" % (d, i), ks + [a[0]])
                                        sw = T.app("RI2", *a)
                                        C.eqs(tag + "transformed network sample [%d,%d]" % (d, i), [(code[0], g[0] + sw * (g[1] - g[0])), (code[1], g[1] + sw * (g[0] - g[1]))])
    with C.block("acceptance ratio", [F_ + "acceptance_ratio"], limit=50), rng.symbolic():
        H.DEVDIM[0] = 2
        with H.patched((gd, "device_count", lambda: 2), (mpi, "global_sum", lambda x: jnp.sum(x) if isinstance(x, jax.core.Tracer) else jnp.sum(x))):
            S = sp.MCSampler(Net(), (L,), rng.key("key0"), updateProposer=lambda k, s, i: s)
            S.numProposed = jnp.array([[6], [10]])
            S.numAccepted = jnp.array([[3], [5]])
            C.true("accepted / proposed", abs(float(jnp.ravel(S.acceptance_ratio())[0]) - 0.5) < 1e-12)
            S.numProposed = S.numAccepted = jnp.array([[0], [0]])
            C.true("zero before sampling", abs(float(jnp.ravel(S.acceptance_ratio())[0])) < 1e-12)
    H.DEVDIM[0] = None


def battery(B):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import jVMC
    from engine.world import close
    from engine.tabnet import TabNet, GenNet
    quick = B.tier == "quick"
    D, R = B.D, B.size
    L = 3
    ix = lambda c: (np.asarray(c).reshape(np.asarray(c).shape[:2] + (L,)) * 2 ** np.arange(L)[::-1]).sum(-1)

    def check(S, psi, out, N, mult, P, mu, lpf, gen, what):
        cfg, lp, p = [np.asarray(x) for x in out]
        assert cfg.shape[0] == D and cfg.shape[:2] == lp.shape == p.shape, "%s: shapes %s %s %s" % (what, cfg.shape, lp.shape, p.shape)
        assert set(np.unique(cfg)) <= {0, 1}
        tot = sum(B.comm.allgather(int(lp.size)))
        rep = S.get_last_number_of_samples()
        assert tot == rep, "%s: %d samples returned, %s reported" % (what, tot, rep)
        assert tot >= N, "%s: %d samples returned, %d requested" % (what, tot, N)
        assert tot - N < R * D * int(np.lcm(1 if gen else S.numChains, mult)), "%s: %d samples returned for %d requested" % (what, tot, N)
        assert lp.shape[1] % mult == 0, "%s: %d samples per device not a multiple of %d" % (what, lp.shape[1], mult)
        assert len(set(B.comm.allgather(rep))) == 1
        t = np.asarray(P).reshape(2, 2 ** L)
        sh = 0.5 * np.log(np.exp(2 * t[0]).sum()) if gen else 0.0
        e = (t[0] - sh)[ix(cfg)] + 1j * t[1][ix(cfg)]
        close(lp, e, 1e-9, what=what + ": log amplitudes")
        if gen:
            close(p, np.ones(p.shape) / tot, 1e-12, what=what + ": weights")
        else:
            w = np.exp((1. / lpf - mu) * e.real)
            close(p, w / sum(B.comm.allgather(float(w.sum()))), 1e-9, what=what + ": weights")
        close(sum(B.comm.allgather(float(p.sum()))), 1.0, 1e-9, what=what + ": total weight")

    for chains, mult, mu, lpf in ((1, 1, 2, 0.5), (3, 1, 1, 0.5), (2, 3, 0.5, 1.0), (4, 2, 1, 1.0), (3, 2, 2, 0.5)) if quick else \
            ((1, 1, 2, 0.5), (3, 1, 1, 0.5), (2, 3, 0.5, 1.0), (4, 2, 1, 1.0), (3, 2, 2, 0.5), (5, 4, 0, 0.5), (2, 2, 1.5, 0.7)):
        def f():
            g = B.rng("m%d%d" % (chains, mult))
            psi = jVMC.vqs.NQS(TabNet(L), seed=3, batchSize=4)
            shape = (L,) if chains != 3 else (1, L)
            S = jVMC.sampler.MCSampler(psi, shape, 17, updateProposer=jVMC.sampler.propose_spin_flip, numChains=chains, numSamples=11, thermalizationSweeps=2,
                                       sweepSteps=3, mu=mu, logProbFactor=lpf)
            P0 = np.asarray(psi.get_parameters())
            n = 0
            for call in range(5):
                par = None
                N = (11, 7, 1, 30, 11)[call]
                kw = {} if call in (0, 4) else dict(numSamples=N)
                if call == 4:
                    S.set_number_of_samples(9)
                    N = 9
                if call == 2:
                    par = jnp.array(g.normal(size=P0.shape))
                    kw["parameters"] = par
                if call == 3:
                    P0 = P0 + 0.3 * g.normal(size=P0.shape)
                    psi.set_parameters(jnp.array(P0))
                out = S.sample(multipleOf=mult, **kw)
                check(S, psi, out, N, mult, P0 if par is None else par, mu, lpf, False, "call %d" % call)
                close(psi.get_parameters(), P0, 1e-12, what="call %d: network parameters afterwards" % call)
                r = float(np.ravel(S.acceptance_ratio())[0])
                assert 0 <= r <= 1, r
                n += 1
            return n
        B.case("mcmc/chains%d/multiple%d/mu%s/%s" % (chains, mult, mu, lpf), f)
    for mult, shape in ((1, (L,)), (3, (L,)), (2, (1, L))):
        def f():
            g = B.rng("g%d" % mult)
            psi = jVMC.vqs.NQS(GenNet(L, shape), seed=5, batchSize=4)
            S = jVMC.sampler.MCSampler(psi, shape, 4, numSamples=10)
            P0 = np.asarray(psi.get_parameters())
            prev = None
            n = 0
            for call in range(5):
                par = None
                N = (10, 7, 1, 40, 10)[call]
                kw = {} if call in (0, 4) else dict(numSamples=N)
                if call == 2:
                    par = jnp.array(g.normal(size=P0.shape))
                    kw["parameters"] = par
                if call == 3:
                    P0 = P0 + 0.3 * g.normal(size=P0.shape)
                    psi.set_parameters(jnp.array(P0))
                out = S.sample(multipleOf=mult, **kw)
                check(S, psi, out, N, mult, P0 if par is None else par, 2, 0.5, True, "call %d" % call)
                close(psi.get_parameters(), P0, 1e-12, what="call %d: network parameters afterwards" % call)
                n += 1
            # expectation values: every configuration appears with its probability
            for par in (None, g.normal(size=P0.shape), None):
                out = S.sample(numSamples=6000 * R, **({} if par is None else dict(parameters=jnp.array(par))))
                h = np.bincount(ix(out[0]).ravel(), minlength=2 ** L) / np.asarray(out[0]).shape[1] / D
                h = sum(B.comm.allgather(h)) / R
                t = (P0 if par is None else par).reshape(2, 2 ** L)[0]
                e = np.exp(2 * t) / np.exp(2 * t).sum()
                assert np.abs(h - e).sum() < 0.1, "sampled frequencies %s, probabilities %s" % (h, e)
            return n
        B.case("direct/multiple%d/%s" % (mult, shape), f)

    def f():
        # symmetrised generator: samples are distributed according to the symmetrised probability
        orbit = jVMC.util.symmetries.get_orbit_1D(L, "translation", "reflection") if hasattr(jVMC.util.symmetries, "get_orbit_1D") else None
        if orbit is None:
            return 0
        psi = jVMC.vqs.NQS(GenNet(L, (L,)), seed=5, batchSize=50, orbit=orbit, avgFun=jVMC.nets.sym_wrapper.avgFun_Coefficients_Sep if hasattr(jVMC.nets.sym_wrapper, "avgFun_Coefficients_Sep") else None)
        S = jVMC.sampler.MCSampler(psi, (L,), 4, numSamples=6000 * R)
        cfg, lp, p = S.sample()
        h = np.bincount(ix(cfg).ravel(), minlength=2 ** L) / np.asarray(cfg).shape[1] / D
        h = sum(B.comm.allgather(h)) / R
        allc = np.array([[(k >> j) & 1 for j in range(L)[::-1]] for k in range(2 ** L)])
        e = np.exp(2 * np.asarray(psi(jnp.array(allc)[None].repeat(D, 0))).real)[0]
        close(e.sum(), 1.0, 1e-9, what="symmetrised probability normalised")
        assert np.abs(h - e).sum() < 0.1, "sampled frequencies %s, probabilities %s" % (h, e)
        return 1
    B.case("direct/symmetrised", f)
