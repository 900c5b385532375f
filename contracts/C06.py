"""C06  Metropolis-Hastings: cached probabilities, acceptance rule, proposals, sweeps."""


def symbolic(C):
    import numpy as np
    import itertools
    import jax
    import jax.numpy as jnp
    from engine import harness as H, terms as T, logic, sym, rng
    from engine.terms import lift, ONE, ZERO
    jv = H.load()
    mpi, gd = jv.mpi_wrapper, jv.global_defs
    import jVMC.sampler as sp
    C.assume("random draws are uninterpreted functions of (key, position); keys obtained by different splits are different streams (engine/rng.py)",
             "the step is proved for any number of chains (and again for 1, 2, 3); sites <= 4 and local dimension are fixed per obligation; configuration, network, proposer, parameters and mu are arbitrary",
             "fori_loop/scan have their documented sequential meaning")
    F_ = "jVMC.sampler.MCSampler."
    T.declare("NET", real=False)
    mu = T.var("mu")
    sv = lambda t, dt=np.float64: sym.from_fun((), dt, lambda: t)

    class Net:
        is_generator = False
        logarithmic = True

        def __init__(self):
            self.net = self
            self.params = "P"
            self.parameters = {"params": "P"}

        def __call__(self, s):
            return None

        def get_sampler_net(self):
            return (lambda p, y: sym.ufun("NET", p, y)), self.parameters

    def mk(L, Cc, prop, Dc=1):
        with H.patched((gd, "device_count", lambda: Dc)):
            S = sp.MCSampler(Net(), (L,), rng.key("key0"), updateProposer=prop, numChains=Cc)
        S.mu = sv(mu)
        return S
    L = 2

    def prop(key, s, arg):
        return jnp.stack([sym.ufun("PROP%d" % j, key, s, arg, dtype=np.int32) for j in range(L)])
    for j in range(4):
        T.declare("PROP%d" % j, int_=True)
    par = sym.inp
    NP_ = 2

    def check_step(Cc, states, la, st2, la2, npd, nac, key2, n0, a0, root):
        accs = []
        keys = []
        argv = T.app("arg", ZERO)
        pv = [T.app("p", lift(k)) for k in range(NP_)]
        for c in range(Cc):
            s = [states(c, j) for j in range(L)]
            code = [st2.term(c, j) for j in range(L)]
            pr = {tuple(a) for t in code for _, a in rng.find_apps(t, {"PROP%d" % j for j in range(L)})}
            us = {tuple(a) for t in code for _, a in rng.find_apps(t, {"U"})}
            if not C.struct("chain %d: one proposal and one random number decide the update" % c, len(pr) == 1 and len(us) == 1, detail="%d proposals, %d uniforms" % (len(pr), len(us))):
                return
            pa, ua = list(pr)[0], list(us)[0]
            C.eqs("chain %d: proposal starts from the current state" % c, list(zip(pa[2:], s + [argv])))
            keys += [pa[0], ua[0]]
            new = [T.app("PROP%d" % j, *pa) for j in range(L)]
            nla = mu * T.re(T.app("NET", *pv, *new))
            acc = T.lt0(T.app("U", *ua) - T.exp(nla - la(c)))
            accs.append(acc)
            for j in range(L):
                C.eq("chain %d site %d: accept with probability min(1, exp(mu Re(log psi' - log psi)))" % (c, j), code[j], T.ite(acc, new[j], s[j]))
            C.eq("chain %d: cached log-probability follows the state" % c, la2.term(c), T.ite(acc, nla, la(c)))
            C.true("chain %d: own random number" % c, len(ua) == 3)
            keys[-1] = (ua[0], ua[2])
        C.eq("proposed counter", npd.term(0), n0 + Cc)
        C.eq("accepted counter", nac.term(0), a0 + sum(accs, ZERO))
        # streams
        k2 = key2.term(0)
        props, unis = keys[0::2], keys[1::2]
        allk = list(props) + [k2] + list(dict.fromkeys([u for u, _ in unis]))
        C.streams("all streams of the step are different", allk)
        C.true("uniforms differ between chains", len(set((u, i) for u, i in unis)) == Cc)
        C.struct("streams derive from the chain key", all(T.is_zero(rng.key_path(k)[0] - root) for k in allk))

    for Cc in (1, 2, 3):
        with C.block("one update, %d chains" % Cc, [F_ + "_sweep"], limit=150), rng.symbolic():
            S = mk(L, Cc, prop)
            st = sym.inp("s", (Cc, L), np.int32, int_=True)
            la = sym.inp("la", (Cc,), np.float64)
            ky = rng.key("key")
            p = sym.inp("p", (NP_,), np.float64)
            arg = sym.inp("arg", (1,), np.float64)
            n0, a0 = T.var("n0", int_=True), T.var("a0", int_=True)
            f1 = lambda t: sym.from_fun((1,), np.int64, lambda i: t)
            net, _ = S.net.get_sampler_net()
            out = S._sweep(st, la, ky, f1(n0), f1(a0), p, 1, prop, arg, net=net)
            st2, la2, k2, npd, nac = out
            C.true("shapes", tuple(st2.shape) == (Cc, L) and tuple(la2.shape) == (Cc,), detail=str((st2.shape, la2.shape)))
            check_step(Cc, lambda c, j: T.app("s", lift(c), lift(j)), lambda c: T.app("la", lift(c)), st2, la2, npd, nac, k2, n0, a0, T.app("key", ZERO))
            # loop: numSteps = 0 keeps everything
            out0 = S._sweep(st, la, ky, f1(n0), f1(a0), p, 0, prop, arg, net=net)
            C.eqs("no step: state unchanged", [(out0[0].term(c, j), T.app("s", lift(c), lift(j))) for c in range(Cc) for j in range(L)])
            C.eq("no step: counters unchanged", out0[3].term(0) * 1000 + out0[4].term(0), n0 * 1000 + a0)
            # loop rule: an arbitrary number of steps runs the step function exactly that often on the whole carry
            seen = []
            real = jax.lax.fori_loop

            def fl(lo, hi, body, init, **kw):
                if not seen:
                    seen.append((lo, hi, body, init))
                    return init
                return real(lo, hi, body, init, **kw)
            with H.patched((jax.lax, "fori_loop", fl)):
                S._sweep(st, la, ky, f1(n0), f1(a0), p, 17, prop, arg, net=net)
            if seen:
                lo, hi, body, init = seen[0]
                C.true("loop bounds = number of steps", int(hi) - int(lo) == 17, detail=str((lo, hi)))
                ii = T.var("ii", int_=True, nonneg=True)
                b = jax.jit(body)(sv(ii, np.int64), tuple(init)) if False else body(sv(ii, np.int64), tuple(init))
                d = ZERO
                for x, y in zip(b, out):
                    for i in np.ndindex(*x.shape):
                        C.eq("step independent of the iteration number %s" % (i,), x.term(*i), y.term(*i))
            else:
                o3 = S._sweep(*S._sweep(st, la, ky, f1(n0), f1(a0), p, 1, prop, arg, net=net), p, 1, prop, arg, net=net)
                o2 = S._sweep(st, la, ky, f1(n0), f1(a0), p, 2, prop, arg, net=net)
                C.eqs("two steps = step after step", [(o2[0].term(c, j), o3[0].term(c, j)) for c in range(Cc) for j in range(L)])
    # ---- the same update for an arbitrary number of chains and of steps
    with C.block("one update, any number of chains", [F_ + "_sweep"], limit=150), rng.symbolic():
        (CC,) = sym.sdims("Cc")
        Cp = sym.dim_poly(CC)
        S = mk(L, 2, prop)
        st, la = sym.inp("s", (CC, L), np.int32, int_=True), sym.inp("la", (CC,), np.float64)
        ky, p, arg = rng.key("key"), sym.inp("p", (NP_,), np.float64), sym.inp("arg", (1,), np.float64)
        n0, a0 = T.var("n0", int_=True), T.var("a0", int_=True)
        f1 = lambda t: sym.from_fun((1,), np.int64, lambda i: t)
        net, _ = S.net.get_sampler_net()
        length = lambda x: x.shape[0] if isinstance(x, jax.core.Tracer) else len(x)
        with H.patched((sp, "len", length)):
            out = S._sweep(st, la, ky, f1(n0), f1(a0), p, 1, prop, arg, net=net)
            st2, la2, k2, npd, nac = out
            C.true("shapes", tuple(st2.shape) == (CC, L) and tuple(la2.shape) == (CC,), detail=str((st2.shape, la2.shape)))
            e, c1 = C.idx("e", CC), C.idx("c", CC)
            argv, pv = T.app("arg", ZERO), [T.app("p", lift(k)) for k in range(NP_)]

            def update(c):
                code = [st2.term(c, j) for j in range(L)]
                pr = {tuple(a) for t in code for _, a in rng.find_apps(t, {"PROP%d" % j for j in range(L)})}
                us = {tuple(a) for t in code for _, a in rng.find_apps(t, {"U"})}
                if not C.struct("one proposal and one random number decide the update", len(pr) == 1 and len(us) == 1, detail="%d proposals, %d uniforms" % (len(pr), len(us))):
                    return None
                pa, ua = list(pr)[0], list(us)[0]
                new = [T.app("PROP%d" % j, *pa) for j in range(L)]
                nla = mu * T.re(T.app("NET", *pv, *new))
                return code, pa, ua, new, nla, T.lt0(T.app("U", *ua) - T.exp(nla - T.app("la", c)))
            u1 = update(c1)
            if u1:
                code, pa, ua, new, nla, acc = u1
                C.eqs("proposal starts from the current state of its own chain", list(zip(pa[2:], [T.app("s", c1, lift(j)) for j in range(L)] + [argv])))
                C.eqs("accept with probability min(1, exp(mu Re(log psi' - log psi)))", [(code[j], T.ite(acc, new[j], T.app("s", c1, lift(j)))) for j in range(L)])
                C.eq("cached log-probability follows the state", la2.term(c1), T.ite(acc, nla, T.app("la", c1)))
                C.eq("proposed counter", npd.term(0), n0 + Cp)
                b = T.fresh("b")
                ub = update(b)
                C.eq("accepted counter", nac.term(0), a0 + T.mk_sum([(b, Cp)], ub[5]))
                C.streams("streams of a chain, its decision and the next step are different", [pa[0], ua[0], k2.term(0)])
                c2 = c1 + 1 + e
                u2 = update(c2)
                if T.is_zero(u2[2][0] - ua[0]):
                    C.eq("the decisions of two chains use different random numbers", T.eq0(ua[2] - u2[2][2]), ZERO)
                else:
                    C.streams("the decisions of two chains use different streams", [ua[0], u2[2][0]])
                C.streams("the proposals of two chains use different streams", [pa[0], u2[1][0]])
    with C.block("initialisation", [F_ + "_mc_init"], limit=100), rng.symbolic():
        for Dc in (1, 2):
            S = mk(L, 2, prop, Dc)
            S.states = sym.inp("s", (Dc, 2, L), np.int32, int_=True)
            p = sym.inp("p", (NP_,), np.float64)
            with H.patched((gd, "device_count", lambda: Dc)):
                S._mc_init(p)
            pv = [T.app("p", lift(k)) for k in range(NP_)]
            for d in range(Dc):
                for c in range(2):
                    C.eq("cached log-probability = mu Re log psi(state) devices=%d [%d,%d]" % (Dc, d, c), S.logAccProb.term(d, c),
                         mu * T.re(T.app("NET", *pv, *[T.app("s", lift(d), lift(c), lift(j)) for j in range(L)])))
            C.true("counters reset devices=%d" % Dc, np.all(np.asarray(S.numProposed) == 0) and np.all(np.asarray(S.numAccepted) == 0) and S.numProposed.shape[0] == Dc)
    with C.block("sample() starts from consistent chains", [F_ + "sample", F_ + "_get_samples_mcmc", F_ + "_mc_init"], limit=100), rng.symbolic():
        P0, P1 = sym.inp("p", (NP_,), np.float64), sym.inp("q", (NP_,), np.float64)

        class Net2(Net):
            def __init__(self):
                self.net = self
                self.parameters = {"params": P0}

            def set_parameters(self, p):
                self.parameters = {"params": p}

            def get_parameters(self):
                return self.parameters["params"]
            params = property(lambda s: s.parameters["params"], lambda s, v: s.set_parameters(v))

            def __call__(self, s):
                return jnp.stack([jnp.stack([sym.ufun("NET", self.parameters["params"], s[d, c]) for c in range(s.shape[1])]) for d in range(s.shape[0])])

            def get_sampler_net(self):
                return (lambda p, y: sym.ufun("NET", p["params"], y)), self.parameters
        for Dc in (1, 2):
            with H.patched((gd, "device_count", lambda: Dc), (mpi, "global_sum", lambda x: jnp.sum(x)),
                           (mpi, "distribute_sampling", lambda n, **k: (1, 2 * Dc))):
                net = Net2()
                with H.patched((Net2, "__call__", lambda self, s: None)):
                    S = sp.MCSampler(net, (L,), rng.key("key0"), updateProposer=prop, numChains=2)
                S.mu = sv(mu)
                seen = []

                def gs(params, n, th, sw, states, la, key, npd, nac, up, ua, shape, sweepFunction=None):
                    seen.append((params, states, la, npd, nac))
                    return (states, la, key, npd, nac), states
                if not C.struct("chains are advanced by _get_samples", hasattr(S, "_get_samples")):
                    continue
                S._get_samples = gs
                for what, q, nm in (("own", None, "p"), ("explicit", P1, "q"), ("own after explicit", None, "p")):
                    S.states = sym.inp("s" + nm, (Dc, 2, L), np.int32, int_=True)
                    seen.clear()
                    S.sample(parameters=q, numSamples=2 * Dc)
                    if not C.struct("%s parameters: one call per device, devices=%d" % (what, Dc), len(seen) in (1, Dc), detail=str(len(seen))):
                        continue
                    pv = [T.app(nm, lift(k)) for k in range(NP_)]
                    la = S.logAccProb
                    for d in range(Dc):
                        for c in range(2):
                            C.eq("%s parameters: cached log-probability of the chains, devices=%d [%d,%d]" % (what, Dc, d, c), la.term(d, c),
                                 mu * T.re(T.app("NET", *pv, *[T.app("s" + nm, lift(d), lift(c), lift(j)) for j in range(L)])))
                    for k in range(NP_):
                        C.eq("%s parameters are used for the updates, devices=%d [%d]" % (what, Dc, k), seen[0][0]["params"].term(k), pv[k])
                    C.true("%s parameters: network keeps its own, devices=%d" % (what, Dc), net.parameters["params"] is P0)
    # sampling schedule, with the sweep replaced by its contract (an arbitrary transition of the whole chain state)
    for therm, sweep, n in ((2, 3, 3), (0, 1, 2), (5, 4, 1)):
        with C.block("schedule therm=%d sweep=%d samples=%d" % (therm, sweep, n), [F_ + "_get_samples"], limit=100), rng.symbolic():
            Cc = 2
            S = mk(L, Cc, prop)
            for nm in ["SWs%d%d" % (c, j) for c in range(Cc) for j in range(L)]:
                T.declare(nm, int_=True)
            calls = []

            def sweepf(states, la, key, npd, nac, params, steps, up, ua):
                calls.append((steps, up, ua))
                st_ = jnp.asarray(steps)
                a = (states, la, key, params, st_)
                f = lambda nm, dt: sym.ufun(nm, *a, dtype=dt)
                return (jnp.stack([jnp.stack([f("SWs%d%d" % (c, j), np.int32) for j in range(L)]) for c in range(Cc)]),
                        jnp.stack([f("SWl%d" % c, np.float64) for c in range(Cc)]), jnp.stack([f("SWk%d" % c, np.uint32) for c in range(2)]), npd + steps, nac + 1)
            for nm in ("SWl0", "SWl1", "SWk0", "SWk1"):
                T.declare(nm, real=True, int_=nm[2] == "k")
            st = sym.inp("s", (Cc, L), np.int32, int_=True)
            la = sym.inp("la", (Cc,), np.float64)
            ky = rng.key("key")
            p = sym.inp("p", (NP_,), np.float64)
            z = jnp.zeros((1,), dtype=np.int64)
            meta, cfg = S._get_samples(p, n, therm, sweep, st, la, ky, z, z, prop, 7, (L,), sweepFunction=sweepf)
            C.true("shape", tuple(cfg.shape) == (n * Cc, L), detail=str(cfg.shape))
            C.true("proposer handed on", all(c[1] is prop for c in calls))
            cur = [[T.app("s", lift(c), lift(j)) for c in range(Cc) for j in range(L)], [T.app("la", lift(c)) for c in range(Cc)], [T.app("key", lift(c)) for c in range(2)]]
            pv = [T.app("p", lift(k)) for k in range(NP_)]

            def step(cur, k):
                a = cur[0] + cur[1] + cur[2] + pv + [lift(k)]
                return [[T.app("SWs%d%d" % (c, j), *a) for c in range(Cc) for j in range(L)], [T.app("SWl%d" % c, *a) for c in range(Cc)], [T.app("SWk%d" % c, *a) for c in range(2)]]
            cur = step(cur, therm * sweep)
            for k in range(n):
                cur = step(cur, sweep)
                for c in range(Cc):
                    for j in range(L):
                        C.eq("sample %d chain %d site %d" % (k, c, j), cfg.term(k * Cc + c, j), cur[0][c * L + j])
            C.eqs("final chain state", [(meta[0].term(c, j), cur[0][c * L + j]) for c in range(Cc) for j in range(L)])
            C.eqs("final cached log-probability", [(meta[1].term(c), cur[1][c]) for c in range(Cc)])
            C.eqs("final key", [(meta[2].term(c), cur[2][c]) for c in range(2)])
            C.eq("proposed counter", meta[3].term(0) if not isinstance(meta[3], jax.Array) or isinstance(meta[3], sym.SymTracer) else lift(int(meta[3][0])), lift(therm * sweep + n * sweep))
    # proposers
    def apps_of(t, names):
        return rng.find_apps(t, names)

    def draws(terms):
        """the random draws occurring in a proposal: list of (function name, args)"""
        seen = {}
        for t in terms:
            for nm, a in rng.find_apps(t, {"RI%d" % k for k in range(1, 20)}):
                seen[(nm, tuple(a))] = int(nm[2:])
        return seen

    def fix(t, nm, args, v):
        """value of the term when the draw nm(args) equals v"""
        ids = {}
        for i in range(len(T._atoms)):
            a = T._atoms[i]
            if a is not None and a.kind == "ind" and a.data[0] == nm and tuple(a.data[1]) == tuple(args):
                ids[a.id] = ONE if a.data[2] == v else ZERO
            if a is not None and a.kind == "app" and a.data[0] == nm and tuple(a.data[1]) == tuple(args):
                ids[a.id] = lift(v)
        return sym.replace_atoms(t, ids)

    def proposals(fun, cfg_terms, shape, dom):
        """all outcomes of the proposal as terms, one per combination of draw values (equally likely)"""
        f = sym.from_fun(shape, np.int32, lambda *i: sel(cfg_terms, shape, i))
        o = fun(rng.key("key"), f, None)
        res = [o.term(*i) for i in np.ndindex(*shape)]
        if tuple(o.shape) != tuple(shape):
            return None, "shape %s" % (o.shape,)
        ds = draws(res)
        out = []
        for vals in itertools.product(*[range(n) for n in ds.values()]):
            r = res
            for (nm, a), v in zip(ds, vals):
                r = [fix(t, nm, a, v) for t in r]
            out.append((vals, r))
        return out, list(ds.values())

    def sel(ts, shape, i):
        if all(x.is_int_const() for x in i):
            return ts[int(np.ravel_multi_index([x.as_int() for x in i], shape))]
        tot = ZERO
        for k, t in zip(np.ndindex(*shape), ts):
            g = ONE
            for x, y in zip(i, k):
                g = g * T.eq0(x - y)
            tot = tot + g * t
        return tot
    for nm, fun, dom, shapes in (("propose_spin_flip", sp.propose_spin_flip, 2, ((3,), (2, 2), (1,))), ("propose_spin_flip_Z2", sp.propose_spin_flip_Z2, 2, ((3,), (2, 2))),
                                 ("propose_POVM_outcome", sp.propose_POVM_outcome, 4, ((2,), (3,), (1, 2)))):
        for shape in shapes:
            with C.block("%s %s" % (nm, shape), ["jVMC.sampler." + nm], limit=120), rng.symbolic():
                n = int(np.prod(shape))
                T.declare("x", int_=True, dom=dom)
                x = [T.app("x", lift(i)) for i in range(n)]
                out, dom_ = proposals(fun, x, shape, dom)
                if out is None:
                    C.true("proposal keeps the shape", False, detail=dom_)
                    continue
                # canonical description: per outcome the vector of site maps
                maps = []
                for vals, r in out:
                    m = []
                    for i, t in enumerate(r):
                        tab = []
                        for v in range(dom):
                            y = fix(t, "x", (lift(i),), v)
                            C_ = y.is_int_const()
                            tab.append(y.as_int() if C_ else None)
                        m.append(tuple(tab))
                    maps.append(tuple(m))
                C.struct("sites change independently of the other sites", all(v is not None for m in maps for t in m for v in t), detail=str(maps[:3])[:300])
                C.true("outcomes are valid configurations", all(v is not None and 0 <= v < dom for m in maps for t in m for v in t), detail=str([m for m in maps if any(v is None or not 0 <= v < dom for t in m for v in t)][:2])[:300])
                C.true("every outcome is a permutation of the configurations", all(sorted(t) == list(range(dom)) for m in maps for t in m if None not in t))
                inv = lambda m: tuple(tuple(t.index(v) for v in range(dom)) for t in m)
                from collections import Counter
                try:
                    cnt = Counter(maps)
                    C.true("symmetric proposal: a move and its inverse are equally likely", all(cnt[m] == cnt[inv(m)] for m in cnt), detail=str(cnt)[:400])
                except ValueError:
                    C.true("symmetric proposal: a move and its inverse are equally likely", False)
                # all configurations reachable
                cfgs = list(itertools.product(range(dom), repeat=n))
                reach, todo = {cfgs[0]}, [cfgs[0]]
                while todo:
                    c = todo.pop()
                    for m in set(maps):
                        d = tuple(t[v] for t, v in zip(m, c))
                        if d not in reach:
                            reach.add(d)
                            todo.append(d)
                C.true("all configurations are reachable", len(reach) == len(cfgs), detail="%d of %d" % (len(reach), len(cfgs)))
                movers = sum(any(t != tuple(range(dom)) for t in m) for m in maps)
                C.true("some move changes the configuration", movers > 0)
    for shape in ((2, 2), (1, 4), (2, 1)):
        with C.block("propose_spin_flip_zeroMag %s" % (shape,), ["jVMC.sampler.propose_spin_flip_zeroMag"], limit=150), rng.symbolic():
            n = int(np.prod(shape))
            cfgs = [c for c in itertools.product((0, 1), repeat=n) if 2 * sum(c) == n]
            cnt = {}
            ok = True
            for c in cfgs:
                out, dom_ = proposals(sp.propose_spin_flip_zeroMag, [lift(v) for v in c], shape, 2)
                for vals, r in out:
                    if not all(t.is_int_const() for t in r):
                        raise sym.Unsupported("proposal not determined by its draws")
                    d = tuple(t.as_int() for t in r)
                    cnt[(c, d)] = cnt.get((c, d), 0) + 1
            C.true("stays in the zero magnetisation sector", all(d in cfgs for _, d in cnt), detail=str([k for k in cnt if k[1] not in cfgs][:3]))
            C.true("symmetric proposal", all(cnt.get((d, c), 0) == k for (c, d), k in cnt.items()), detail=str(list(cnt.items())[:6]))
            reach, todo = {cfgs[0]}, [cfgs[0]]
            while todo:
                c = todo.pop()
                for (a, b) in cnt:
                    if a == c and b not in reach:
                        reach.add(b)
                        todo.append(b)
            C.true("all zero magnetisation configurations are reachable", len(reach) == len(cfgs))


def battery(B):
    import numpy as np
    import itertools
    import jax
    import jax.numpy as jnp
    import jVMC
    from engine.world import close
    from engine.tabnet import TabNet
    quick = B.tier == "quick"
    D, R = B.D, B.size
    sp = jVMC.sampler

    def ix(c, L, l):
        c = np.asarray(c)
        return (c.reshape(c.shape[:2] + (L,)) * l ** np.arange(L)[::-1]).sum(-1)

    def hist(cfg, L, l):
        h = np.bincount(ix(cfg, L, l).ravel(), minlength=l ** L).astype(float)
        h = sum(B.comm.allgather(h))
        return h / h.sum()

    def consistent(S, psi, P, mu, L, l, what):
        t = np.asarray(P).reshape(2, -1)[0]
        if hasattr(S, "logAccProb") and hasattr(S, "states"):
            close(S.logAccProb, mu * t[ix(S.states, L, l)], 1e-9, what=what + ": cached log-probability of the chain states")

    for nm, prop, l, shape, mu, chains in (("flip", sp.propose_spin_flip, 2, (3,), 2, 3), ("flip2d", sp.propose_spin_flip, 2, (1, 3), 1, 1), ("Z2", sp.propose_spin_flip_Z2, 2, (3,), 1, 2),
                                           ("povm", sp.propose_POVM_outcome, 4, (2,), 1, 4), ("flipmu0", sp.propose_spin_flip, 2, (3,), 0.5, 5)):
        def f():
            L = int(np.prod(shape))
            g = B.rng("d" + nm)
            psi = jVMC.vqs.NQS(TabNet(L, l), seed=3, batchSize=200)
            lpf = 1.0 if l == 4 else 0.5
            S = sp.MCSampler(psi, shape, 91, updateProposer=prop, numChains=chains, numSamples=50, thermalizationSweeps=10, sweepSteps=2 * L + 3, mu=mu, logProbFactor=lpf)
            n = 0
            for call in range(3):
                P = np.stack([1.0 * g.normal(size=l ** L), g.normal(size=l ** L)]).ravel()
                if call == 2:
                    P[:l ** L][::2] -= 25.0           # half of the configurations practically forbidden
                    P[0] = 0.0
                if call == 1:
                    cfg, lp, p = S.sample(parameters=jnp.array(P), numSamples=9000)
                else:
                    psi.set_parameters(jnp.array(P))
                    cfg, lp, p = S.sample(numSamples=9000)
                consistent(S, psi, P, mu, L, l, "call %d" % call)
                t = P.reshape(2, -1)[0]
                e = np.exp(mu * t)
                e /= e.sum()
                if call == 2 and mu != 2:
                    continue
                if call == 2:
                    e_ok = e > 1e-8
                    h = hist(cfg, L, l)
                    assert np.all(h[~e_ok] <= 0.001), "practically forbidden configurations were sampled: %s" % h
                    continue
                h = hist(cfg, L, l)
                assert np.abs(h - e).sum() < 0.10, "call %d: sampled frequencies %s, probabilities %s" % (call, np.round(h, 3), np.round(e, 3))
                # reweighted expectation values
                w = np.zeros(l ** L)
                np.add.at(w, ix(cfg, L, l).ravel(), np.asarray(p).ravel())
                w = sum(B.comm.allgather(w))
                q = np.exp(t / lpf)
                q /= q.sum()
                assert np.abs(w - q).sum() < 0.2, "call %d: reweighted frequencies %s, probabilities %s" % (call, np.round(w, 3), np.round(q, 3))
                n += 1
            return n
        B.case("distribution/" + nm, f)

    def f():
        # the very first update of every call: deterministic proposal, so the accepted fraction is the acceptance probability
        L = 3
        n = 0
        for mu, lpf in ((2, 0.5), (0.5, 0.5), (1, 0.5), (1, 1.0), (0.3, 1.0)):
            psi = jVMC.vqs.NQS(TabNet(L), seed=3, batchSize=2000)
            K = 3000
            S = sp.MCSampler(psi, (L,), 17, updateProposer=lambda k, s, i: 1 - s, numChains=K, thermalizationSweeps=0, sweepSteps=1, mu=mu, logProbFactor=lpf)
            g = B.rng("first%s%s" % (mu, lpf))
            for call in range(4):
                P = np.stack([1.2 * g.normal(size=2 ** L), g.normal(size=2 ** L)]).ravel()
                P[7] = P[0] - (0.4 if call % 2 == 0 else 0.9) / mu
                if call % 2 == 1:
                    P[[0, 7]] = P[[7, 0]]
                kw = {}
                if call < 2:
                    psi.set_parameters(jnp.array(P))
                else:
                    kw = dict(parameters=jnp.array(P))
                before = ix(S.states, L, 2)
                after = ix(np.asarray(S.sample(numSamples=K * D * R, **kw)[0]).reshape((D, K, L)), L, 2)
                for s in np.unique(before):
                    m = before == s
                    if m.sum() < 300:
                        continue
                    acc = np.mean(after[m] == 7 - s)
                    want = min(1., float(np.exp(mu * (P[7 - s] - P[s]))))
                    assert abs(acc - want) < 6 * np.sqrt(0.25 / m.sum()), "mu=%s logProbFactor=%s call %d: accepted fraction %.3f of the first update from %d, acceptance probability %.3f" % (mu, lpf, call, acc, s, want)
                    n += 1
        return n
    B.case("first update", f)

    def f():
        # flat distribution: every proposal is accepted, consecutive states of a chain differ by exactly one flip
        L, chains, N = 4, 3, 12
        psi = jVMC.vqs.NQS(TabNet(L), seed=3, batchSize=200)
        init = jnp.array([1, 0, 1, 1], dtype=np.int32)
        S = sp.MCSampler(psi, (L,), 7, updateProposer=sp.propose_spin_flip, numChains=chains, thermalizationSweeps=0, sweepSteps=1, initState=init)
        psi.set_parameters(jnp.zeros(psi.get_parameters().shape))
        last = np.asarray(init)[None, None].repeat(D, 0).repeat(chains, 1)
        for call in range(3):
            cfg = np.asarray(S.sample(numSamples=N * chains * D * R)[0])
            close(np.ravel(S.acceptance_ratio())[0], 1.0, 1e-12, what="acceptance ratio of a flat distribution")
            c = cfg.reshape((D, -1, chains, L))
            assert c.shape[1] == N
            seq = np.concatenate([last[:, None], c], axis=1)
            diff = np.abs(seq[:, 1:] - seq[:, :-1]).sum(-1)
            assert np.all(diff == 1), "call %d: flips between consecutive samples %s" % (call, diff.tolist())
            last = c[:, -1]
            if hasattr(S, "numProposed"):
                close(np.asarray(S.numProposed).ravel(), np.full(D, N * chains), 0, what="number of proposals")
        return 3
    B.case("flat", f)

    def f():
        # sweepSteps: exactly that many proposals between samples, thermalisation before the first sample
        L, chains = 3, 2
        psi = jVMC.vqs.NQS(TabNet(L), seed=3, batchSize=200)
        for therm, sweep, N in ((0, 4, 3), (3, 2, 2), (2, 5, 4)):
            S = sp.MCSampler(psi, (L,), 7, updateProposer=lambda k, s, i: (s + jnp.array([1, 0 if i is None else i, 0], dtype=s.dtype)), numChains=chains, thermalizationSweeps=therm, sweepSteps=sweep,
                             updateProposerArg=None if therm else 2)
            # amplitude table lookups clamp: every configuration of this counting chain has the same probability
            psi.set_parameters(jnp.zeros(psi.get_parameters().shape))
            cfg = np.asarray(S.sample(numSamples=N * chains * D * R)[0])
            e = np.array([[therm * sweep + (k // chains + 1) * sweep for k in range(N * chains)]] * D)
            close(cfg[..., 0], e, 0, what="number of updates before each sample (therm=%d sweep=%d)" % (therm, sweep))
            close(cfg[..., 1], 0 * e if therm else 2 * e, 0, what="proposer argument")
            close(np.asarray(S.numProposed).ravel() if hasattr(S, "numProposed") else np.full(D, chains * sweep * (therm + N)), np.full(D, chains * sweep * (therm + N)), 0, what="number of proposals")
            close(np.ravel(S.acceptance_ratio())[0], 1.0, 1e-12, what="acceptance ratio")
        return 3
    B.case("schedule", f)

    def f():
        for shape in ((2, 2), (2, 3), (1, 4)):
            n = int(np.prod(shape))
            cfgs = [c for c in itertools.product((0, 1), repeat=n) if 2 * sum(c) == n]
            K = 4000
            keys = jax.random.split(jax.random.PRNGKey(B.seed), K)
            cnt = {}
            for c in cfgs:
                o = np.asarray(jax.vmap(lambda k: sp.propose_spin_flip_zeroMag(k, jnp.array(c).reshape(shape), None))(keys)).reshape(K, n)
                assert set(np.unique(o)) <= {0, 1} and np.all(2 * o.sum(-1) == n), "left the sector from %s" % (c,)
                for d, k in zip(*np.unique(o, axis=0, return_counts=True)):
                    cnt[(c, tuple(d))] = k / K
            for (c, d), v in cnt.items():
                assert abs(v - cnt.get((d, c), 0.0)) < 0.05, "proposal %s->%s has probability %.3f, back %.3f" % (c, d, v, cnt.get((d, c), 0.0))
        return 3
    if R == 1 and D == 1:
        B.case("zeroMag", f)

    def f():
        for nm, prop, l in (("flip", sp.propose_spin_flip, 2), ("Z2", sp.propose_spin_flip_Z2, 2), ("povm", sp.propose_POVM_outcome, 4)):
            for shape in ((3,), (2, 2)):
                n = int(np.prod(shape))
                K = 3000
                keys = jax.random.split(jax.random.PRNGKey(B.seed + 1), K)
                g = B.rng(nm)
                for c in [(0,) * n, (l - 1,) * n] + [tuple(g.integers(l, size=n)) for _ in range(3)]:
                    o = np.asarray(jax.vmap(lambda k: prop(k, jnp.array(c).reshape(shape), None))(keys))
                    assert o.shape == (K,) + shape
                    o = o.reshape(K, n)
                    assert o.min() >= 0 and o.max() < l, "%s proposes %s from %s" % (nm, o[(o.min(1) < 0) | (o.max(1) >= l)][0], c)
                    u, k = np.unique(o, axis=0, return_counts=True)
                    pf = {tuple(a): b / K for a, b in zip(u, k)}
                    for d in list(pf)[:6]:
                        ob = np.asarray(jax.vmap(lambda k: prop(k, jnp.array(d).reshape(shape), None))(keys)).reshape(K, n)
                        back = np.mean(np.all(ob == np.array(c), axis=1))
                        assert abs(back - pf[d]) < 0.06, "%s: %s->%s has probability %.3f, back %.3f" % (nm, c, d, pf[d], back)
        return 6
    if R == 1 and D == 1:
        B.case("proposers", f)
