"""C20  Independent random streams per process, device, chain, step and call; reproducible from the seed."""


def symbolic(C):
    import numpy as np
    import jax
    import jax.numpy as jnp
    from engine import harness as H, terms as T, logic, sym, rng
    from engine.terms import lift, ONE, ZERO
    jv = H.load()
    mpi, gd = jv.mpi_wrapper, jv.global_defs
    import jVMC.sampler as sp
    C.assume("jax.random.split(key, n)[i] are independent streams for different i; a key that was split is not used again",
             "number of processes and ranks symbolic; devices <= 3, chains <= 3 and updates per call fixed per obligation")
    R, q = sym.sdims("R, Q")
    r = T.var("r", int_=True, nonneg=True)
    gap = T.var("gap", int_=True, nonneg=True)      # another rank is r + 1 + gap
    L = 2
    F_ = "jVMC.sampler.MCSampler."
    T.declare("NET", real=False)

    class Net:
        logarithmic = True

        def __init__(self, gen=False):
            self.net = self
            self.is_generator = gen
            self.parameters = {"params": sym.inp("P0", (1,), np.float64)}
            self.keys = []

        params = property(lambda s: s.parameters["params"], lambda s, v: s.parameters.__setitem__("params", v))

        def __call__(self, s):
            return sym.from_fun(s.shape[:2], np.complex128, lambda *i: ZERO) if isinstance(s, jax.core.Tracer) else None

        def get_sampler_net(self):
            return (lambda p, y: sym.ufun("NET", p["params"], y)), self.parameters

        def sample(self, n, keys, parameters=None):
            self.keys.append(keys)
            if self.draw:
                T.declare("SMP", int_=True)
                one = lambda k, i, j: sym.ufun("SMP", k, i, j, dtype=np.int64)
                row = lambda k: jax.vmap(lambda i: jax.vmap(lambda j: one(k, i, j))(jnp.arange(L)))(jnp.arange(n))
                return jax.vmap(row)(keys)
            return jnp.zeros((keys.shape[0], n, L), dtype=np.int32)
        draw = False
    other = lambda k: T.subst(k, {T.vid(r): r + 1 + gap})
    T.declare("PR", int_=True)

    def prop(key, s, arg):
        return jnp.stack([sym.ufun("PR", key, s, jnp.asarray(j), dtype=np.int32) for j in range(L)])
    for Dc in (1, 2, 3):
        for via in ("constructor", "set_random_key"):
            with C.block("%s devices=%d" % (via, Dc), [F_ + "__init__" if via == "constructor" else F_ + "set_random_key"], limit=60), rng.symbolic():
                rt = sym.from_fun((), np.int64, lambda: r)
                with H.patched((gd, "device_count", lambda: Dc), (mpi, "rank", rt), (mpi, "commSize", R)):
                    S = sp.MCSampler(Net(), (L,), rng.key("key0"), updateProposer=prop, numChains=1)
                    root = "key0"
                    if via != "constructor":
                        S.set_random_key(rng.key("key1"))
                        root = "key1"
                ks = [S.key.term(d, 0) for d in range(Dc)]
                C.true("one key per device", tuple(S.key.shape) == (Dc, 2), detail=str(S.key.shape))
                C.true("reproducible from the given key", all(T.is_zero(rng.key_path(k)[0] - T.app(root, ZERO)) for k in ks), detail=str([T.show(k, 80) for k in ks]))
                C.streams("devices of one process differ", ks)
                for a in range(Dc):
                    for b in range(Dc):
                        C.streams("process r device %d and process r+1+gap device %d differ" % (a, b), [ks[a], other(ks[b])])
    # ---- any number of devices
    with C.block("set_random_key, any number of devices", [F_ + "set_random_key"], limit=60), rng.symbolic():
            (DD,) = sym.sdims("Dd")
            rt = sym.from_fun((), np.int64, lambda: r)
            with H.patched((gd, "device_count", lambda: DD), (mpi, "rank", rt), (mpi, "commSize", R)):
                S = sp.MCSampler.__new__(sp.MCSampler)
                S.set_random_key(rng.key("key0"))
            d, e = C.idx("d", DD), C.idx("e", DD)
            C.true("one key per device", tuple(S.key.shape) == (DD, 2), detail=str(S.key.shape))
            ka, kb = S.key.term(d, ZERO), S.key.term(d + 1 + e, ZERO)
            C.true("reproducible from the given key", T.is_zero(rng.key_path(ka)[0] - T.app("key0", ZERO)), detail=T.show(ka, 80))
            C.streams("devices of one process differ", [ka, kb])
            C.streams("same device of another process", [ka, other(ka)])
            C.streams("another device of another process", [ka, other(kb)])
            C.streams("another device of another process", [kb, other(ka)])
    with C.block("direct sampling calls, any number of devices", [F_ + "_get_samples_gen"], limit=100), rng.symbolic():
        (DD,) = sym.sdims("Dd")
        H.DEVDIM[0] = DD
        with H.patched((gd, "device_count", lambda: DD), (mpi, "distribute_sampling", lambda N, *a, **k: (2, 6))):
            net = Net(True)
            with H.patched((gd, "device_count", lambda: 1)):
                S = sp.MCSampler(net, (L,), rng.key("key0"))
            S.key = rng.key("key", shape=(DD,))
            for call in range(3):
                S.sample()
        d, e = C.idx("d", DD), C.idx("e", DD)
        logic.fact("lt", d + 1 + e - sym.dim_poly(DD))
        ks = [k.term(x, ZERO) for k in net.keys + [S.key] for x in (d, d + 1 + e)]
        if C.struct("one batch of keys per call", len(net.keys) == 3):
            C.streams("all calls and devices differ", ks)
    for Dc, Cc in ((1, 1), (2, 2)):
        with C.block("two MCMC calls devices=%d chains=%d" % (Dc, Cc), [F_ + "_get_samples_mcmc", F_ + "_sweep", F_ + "_get_samples"], limit=150), rng.symbolic():
            H.DEVDIM[0] = Dc
            used = []
            with H.patched((gd, "device_count", lambda: Dc), (mpi, "distribute_sampling", lambda N, *a, **k: (2, 2 * Cc * Dc)),
                           (mpi, "global_sum", lambda x: sym.inp("NRM", (1,), np.float64, pos=True))):
                S = sp.MCSampler(Net(), (L,), rng.key("key0"), updateProposer=prop, numChains=Cc, thermalizationSweeps=1, sweepSteps=1)
                S.key = rng.key("key", shape=(Dc,))
                S.states = sym.inp("s", (Dc, Cc, L), np.int32, int_=True)
                ks = {d: {} for d in range(Dc)}
                for call in range(2):
                    cfg = S.sample()[0]
                    for d in range(Dc):
                        for i in range(2 * Cc):
                            for j in range(L):
                                for nm, a in rng.find_apps(cfg.term(d, i, j), {"PR", "U"}):
                                    ks[d][(nm, a[0], a[2] if nm == "U" else None)] = a[0]
                    # the draws that a chain's final state depends on are its own
                    draws = {(d, c): {(nm, a) if nm == "PR" else (nm, a[0], a[2]) for j in range(L) for nm, a in rng.find_apps(cfg.term(d, 2 * Cc - Cc + c, j), {"PR", "U"})} for d in range(Dc) for c in range(Cc)}
                    own = {k: {x[1][0] if x[0] == "PR" else x[1:] for x in v} for k, v in draws.items()}
                    for a in own:
                        for b in own:
                            if a < b:
                                C.true("call %d: chains %s and %s (device, chain) share no random draw" % (call, a, b), not own[a] & own[b], detail=str([str(x)[:200] for x in list(own[a] & own[b])[:2]]))
                    S.states = sym.inp("s%d" % call, (Dc, Cc, L), np.int32, int_=True)     # forget the history: only the streams matter
                for d in range(Dc):
                    pk = [k for (nm, k, _), v in ks[d].items() if nm == "PR"]
                    uk = list(dict.fromkeys(k for (nm, k, _), v in ks[d].items() if nm == "U"))
                    # 3 sweeps per call (1 thermalisation + 2 samples), 2 calls
                    C.struct("device %d: number of proposals" % d, len(pk) == 6 * Cc, detail=str(len(pk)))
                    C.struct("device %d: number of acceptance draws" % d, sum(1 for x in ks[d] if x[0] == "U") == 6 * Cc, detail=str(sum(1 for x in ks[d] if x[0] == "U")))
                    C.streams("device %d: every update of every chain in both calls has its own stream" % d, pk + uk + [S.key.term(d, 0)])
                    C.true("device %d: streams stem from the device's key" % d, all(T.is_zero(rng.key_path(k)[0] - T.app("key", lift(d), ZERO)) for k in pk + uk + [S.key.term(d, 0)]))
    for Dc in (1, 2, 3):
        with C.block("direct sampling calls devices=%d" % Dc, [F_ + "_get_samples_gen"], limit=100), rng.symbolic():
            H.DEVDIM[0] = Dc
            rt = sym.from_fun((), np.int64, lambda: r)
            with H.patched((gd, "device_count", lambda: Dc), (mpi, "distribute_sampling", lambda N, *a, **k: (2, 2 * Dc)), (mpi, "rank", rt), (mpi, "commSize", R)):
                net = Net(True)
                S = sp.MCSampler(net, (L,), rng.key("key0"))
                for call in range(3):
                    S.sample()
                ks = [k.term(d, 0) for k in net.keys for d in range(Dc)]
                C.struct("one batch of keys per call", len(net.keys) == 3)
                C.streams("all calls and devices differ", ks + [S.key.term(d, 0) for d in range(Dc)])
                for a in ks:
                    for b in ks:
                        C.streams("different processes differ", [a, other(b)])
    for Dc in (1, 2, 3):
        with C.block("direct sampling with symmetries devices=%d" % Dc, [F_ + "_get_samples_gen", F_ + "_randomize_samples"], limit=100), rng.symbolic():
            H.DEVDIM[0] = Dc
            rt = sym.from_fun((), np.int64, lambda: r)
            with H.patched((gd, "device_count", lambda: Dc), (mpi, "distribute_sampling", lambda N, *a, **k: (2, 2 * Dc)), (mpi, "rank", rt), (mpi, "commSize", R)):
                net = Net(True)
                net.draw = True
                S = sp.MCSampler(net, (L,), rng.key("key0"))
                S.orbit = jnp.array([np.eye(2, dtype=int), np.eye(2, dtype=int)[::-1]])
                smp, sy, pos = [], [], set()
                for call in range(2):
                    cfg = S.sample()[0]
                    for d in range(Dc):
                        for i in range(2):
                            for nm, a in rng.find_apps(cfg.term(d, i, 0), {"SMP", "RI2"}):
                                (smp if nm == "SMP" else sy).append(a[0])
                                if nm == "RI2":
                                    pos.add(a)
                smp, sy = list(dict.fromkeys(smp)), list(dict.fromkeys(sy))
                C.struct("streams found", len(smp) >= 1 and len(sy) >= 1, detail="%d %d" % (len(smp), len(sy)))
                C.struct("one symmetry operation per sample", len(pos) == 4 * Dc, detail=str(len(pos)))
                C.streams("samples, symmetry operations and later calls use different streams", smp + sy + [S.key.term(d, 0) for d in range(Dc)])
                for a in smp + sy:
                    for b in smp + sy:
                        C.streams("different processes differ", [a, other(b)])
    H.DEVDIM[0] = None


def battery(B):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import jVMC
    from engine.world import close
    from engine.tabnet import TabNet, GenNet
    D, R = B.D, B.size
    L = 12

    def all_rows(cfg, chains):
        """per (rank, device, chain): the flattened sequence of configurations"""
        c = np.asarray(cfg).reshape((D, -1, chains, L))
        rows = [c[d, :, k].ravel().tolist() for d in range(D) for k in range(chains)]
        return [tuple(r) for part in B.comm.allgather(rows) for r in part]

    def distinct(rows, what):
        assert len(set(rows)) == len(rows), "%s: %d of %d streams coincide" % (what, len(rows) - len(set(rows)) + 1, len(rows))

    class Flat(TabNet):
        pass

    import flax.linen as nn

    class FlatNet(nn.Module):
        @nn.compact
        def __call__(self, s):
            a = self.param("a", lambda k, sh: 0.01 * jax.random.normal(k, sh, dtype=jnp.float64), (2,))
            return a[0] * jnp.sum(s) + 1j * a[1] * jnp.sum(s)
    for key in (5, "key", "set"):
        def f():
            chains = 2
            psi = jVMC.vqs.NQS(FlatNet(), seed=3, batchSize=50)
            k = 5 if key == 5 else jax.random.PRNGKey(8)

            def mk():
                S = jVMC.sampler.MCSampler(psi, (L,), 1 if key == "set" else k, updateProposer=jVMC.sampler.propose_spin_flip, numChains=chains, thermalizationSweeps=2, sweepSteps=5)
                if key == "set":
                    S.set_random_key(k)
                return S
            S = mk()
            seen = []
            first = None
            for call in range(3):
                cfg = S.sample(numSamples=8 * chains * D * R)[0]
                rows = all_rows(cfg, chains)
                distinct(rows, "call %d" % call)
                seen += rows
                first = np.asarray(cfg) if first is None else first
            distinct(seen, "all calls")
            close(np.asarray(mk().sample(numSamples=8 * chains * D * R)[0]), first, 0, what="same key, same samples")
            return 3
        B.case("mcmc/%s" % key, f)

        def f():
            psi = jVMC.vqs.NQS(GenNet(5, (5,)), seed=5, batchSize=50)
            psi.init_net(jnp.zeros((D, 1, 5), dtype=np.int32))
            psi.set_parameters(jnp.zeros(psi.get_parameters().shape))
            k = 5 if key == 5 else jax.random.PRNGKey(8)

            def mk():
                S = jVMC.sampler.MCSampler(psi, (5,), 1 if key == "set" else k, numSamples=20 * D * R)
                if key == "set":
                    S.set_random_key(k)
                return S
            S = mk()
            seen = []
            first = None
            for call in range(3):
                cfg = np.asarray(S.sample()[0])
                first = cfg if first is None else first
                seen += [tuple(r) for part in B.comm.allgather([cfg[d].ravel().tolist() for d in range(D)]) for r in part]
            distinct(seen, "direct sampling")
            close(np.asarray(mk().sample()[0]), first, 0, what="same key, same samples")
            return 3
        B.case("direct/%s" % key, f)

    def f():
        # the proposal is deterministic: chains differ by their acceptance decisions only
        psi = jVMC.vqs.NQS(FlatNet(), seed=3, batchSize=200)
        psi(jnp.zeros((D, 1, L), dtype=np.int32))
        psi.set_parameters(jnp.array([0.5 * np.log(2.) / L, 0.]))
        S = jVMC.sampler.MCSampler(psi, (L,), 21, updateProposer=lambda k, s, arg: 1 - s, numChains=6, thermalizationSweeps=0, sweepSteps=1)
        seen = []
        for call in range(2):
            S.states = jnp.ones(S.states.shape, dtype=S.states.dtype)
            rows = all_rows(S.sample(numSamples=120 * 6 * D * R)[0], 6)
            distinct(rows, "acceptance decisions of the chains in call %d" % call)
            seen += rows
        distinct(seen, "acceptance decisions of both calls")
        return 2
    B.case("acceptance decisions", f)

    def f():
        psi = jVMC.vqs.NQS(jVMC.nets.CpxRBM(numHidden=3), seed=42, batchSize=50)
        psi(jnp.zeros((D, 2, 4), dtype=np.int32))
        ps = B.comm.allgather(np.asarray(psi.get_parameters()))
        for p in ps:
            close(p, ps[0], 0, what="initial parameters on all processes")
        q = jVMC.vqs.NQS(jVMC.nets.CpxRBM(numHidden=3), seed=43, batchSize=50)
        q(jnp.zeros((D, 2, 4), dtype=np.int32))
        assert not np.allclose(q.get_parameters(), ps[0])
        return 2
    B.case("initial parameters", f)

    def f():
        used = []
        names = [n for n in ("choice", "randint", "uniform", "categorical") if hasattr(jax.random, n)]
        old = {n: getattr(jax.random, n) for n in names}
        inside = [0]

        def rec(n):
            def g(key, *a, **k):
                if not inside[0]:
                    jax.debug.callback(lambda x: used.append(("draw", tuple(np.asarray(x).ravel().tolist()))), key)
                inside[0] += 1
                try:
                    return old[n](key, *a, **k)
                finally:
                    inside[0] -= 1
            return g
        psi = jVMC.vqs.NQS(GenNet(4, (4,)), seed=5, batchSize=50)
        psi.init_net(jnp.zeros((D, 1, 4), dtype=np.int32))
        orig = psi.sample

        def sample(n, keys, **kw):
            used.extend(("sample", tuple(x)) for x in np.asarray(keys).reshape(-1, 2).tolist())
            return orig(n, keys, **kw)
        psi.sample = sample
        S = jVMC.sampler.MCSampler(psi, (4,), 17, numSamples=3 * D * R)
        S.sample()                                    # compiles the network's own sampling with the original generators
        used.clear()
        if not hasattr(S, "orbit"):
            return 0
        S.orbit = jVMC.util.symmetries.get_orbit_1D(4, "translation").orbit
        S._randomize_samples_jitd = {}
        try:
            for n in names:
                setattr(jax.random, n, rec(n))
            for call in range(2):
                jax.block_until_ready(S.sample()[0])
            jax.effects_barrier()
        finally:
            for n in names:
                setattr(jax.random, n, old[n])
        ks = [k for part in B.comm.allgather(used) for _, k in part]
        distinct(ks, "keys of the samples and of the symmetry operations")
        return len(ks)
    B.case("direct sampling of symmetrised states", f)
