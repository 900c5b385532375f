"""C12  autoregressive networks: normalised, and direct sampling draws from exactly the distribution that evaluation assigns."""


def zigzag(L):
    return [(r, c if r % 2 == 0 else L - 1 - c) for r in range(L) for c in range(L)]


def symbolic(C):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import flax.linen as nn
    from engine import harness as H, terms as T, logic, sym, rng
    from engine.terms import lift
    jv = H.load()
    import jVMC.nets as nets
    C.assume("parameters are symbolic real numbers, the activation function is an arbitrary real function (flax LSTM/GRU cells: sigmoid and tanh as they are)",
             "hidden vectors of any size (LSTM and GRU cells on 2D lattices: size 1), depth <= 2, local dimension <= 3; the induction step over the sites is discharged for prefixes of length <= 2 (1D) and all sites of a 2x2 lattice",
             "jax.random.categorical(key, logits) draws k with probability proportional to exp(logits[k])")
    T.declare("ACT", real=True)
    act = lambda x: sym.ufun("ACT", dtype=np.float64, *[x]) if x.ndim == 0 else jax.vmap(act)(x)

    Hd, M = sym.sdims("H, M")

    def build(cls, L, shape, hidden=1, **kw):
        """symbolic parameters; hidden=None: hidden vectors of any size"""
        net = cls(L=L, hiddenSize=Hd if hidden is None else hidden, actFun=act, **kw)
        big = 7 if hidden is None else hidden
        cnc = cls(L=L, hiddenSize=big, **kw)
        p = cnc.init(jax.random.PRNGKey(0), jnp.zeros(shape, dtype=np.int32))
        cnt = [0]

        def leaf(x):
            cnt[0] += 1
            return sym.inp("w%d" % cnt[0], x.shape if hidden is not None else tuple(Hd if d == big else d for d in x.shape), x.dtype)
        return net, jax.tree_util.tree_map(leaf, p)

    def arr(vals, shape):
        vals = [lift(v) for v in vals]
        return sym.from_fun(shape, np.int32, lambda *i: vals[int(np.ravel_multi_index([j.as_int() for j in i], shape))])
    K1 = ["jVMC.nets.rnn1d_general.RNN1DGeneral." + x for x in ("__call__", "log_coeffs_to_log_probs", "rnn_cell", "sample", "rnn_cell_sample")] + ["jVMC.nets.rnn1d_general.RNNCellStack.__call__", "jVMC.nets.rnn1d_general.RNNCell.__call__"]
    K2 = [k.replace("1d", "2d").replace("1D", "2D") for k in K1 if "rnn_cell" not in k] + ["jVMC.nets.rnn2d_general.RNN2DGeneral." + x for x in ("rnn_cell_V", "rnn_cell_H", "rnn_cell_V_sample", "rnn_cell_H_sample", "reverse_line")]
    configs = [("RNN", dict(inputDim=2)), ("RNN real output", dict(inputDim=2, realValuedOutput=True)), ("RNN probability", dict(inputDim=3, realValuedOutput=True, logProbFactor=1.)),
               ("RNN three states", dict(inputDim=3)), ("RNN depth 2", dict(inputDim=2, depth=2)), ("LSTM", dict(inputDim=2, cell="LSTM")), ("GRU", dict(inputDim=2, cell="GRU"))]
    for name, kw in configs:
        l, kap = kw["inputDim"], T.Q(1, 2) if kw.get("logProbFactor", 0.5) == 0.5 else 1
        with C.block("1D %s" % name, K1, limit=150):
            net, p = build(nets.RNN1DGeneral, 3, (3,), hidden=None, **kw)

            def V(vals):
                return T.exp(T.re(net.apply(p, arr(vals, (len(vals),))).term()) * (lift(1) / kap))
            T.declare("s", int_=True, dom=l)
            st = [T.app("s", lift(k)) for k in range(3)]
            tot = lift(1)
            for n in range(1, 4 if l == 2 and "cell" not in kw else 3):
                C.eq("summing over site %d gives the probability of the sites before" % n, sum((V(st[:n - 1] + [k]) for k in range(l)), lift(0)), V(st[:n - 1]) if n > 1 else lift(1))
            with rng.symbolic():
                key = rng.key("key")
                for L in (1, 2, 3) if l == 2 and "cell" not in kw else (1, 2):
                    netL = net.clone(L=L)
                    smp = netL.apply(p, M, key, method=netL.sample)
                    C.true("shape of samples, L=%d" % L, str(tuple(smp.shape)) == str((M, L)), detail=str(smp.shape))
                    m = C.idx("m", M)
                    draws, keys = [], []
                    for i in range(L):
                        t = smp.term(m, i)
                        ap = [a for a in rng.find_apps(t, ["CAT%d" % l])]
                        # the draw of site i is the one that is not nested in another
                        top = [a for a in ap if T.is_zero(t - T.app("CAT%d" % l, *a[1]))]
                        if not top:
                            C.undecided("draw of site %d" % i, "sample is not a single categorical draw: %s" % T.show(t))
                            break
                        args = top[0][1]
                        lg = args[-l:]
                        draws.append(t)
                        keys.append(args[0])
                        pre = draws[:-1]
                        v = [V(pre + [k]) for k in range(l)]
                        for k in range(1, l):
                            C.eq("L=%d: site %d is drawn with the conditional probability that evaluation assigns (%d)" % (L, i, k), T.exp(lg[k]) * v[0], T.exp(lg[0]) * v[k])
                    C.streams("L=%d: one key per site and sample" % L, keys)
    for name, kw in configs[:3] + configs[5:]:
        l, kap = kw["inputDim"], T.Q(1, 2) if kw.get("logProbFactor", 0.5) == 0.5 else 1
        with C.block("2D %s" % name, K2, limit=200):
            net, p = build(nets.RNN2DGeneral, 2, (2, 2), hidden=1 if "cell" in kw else None, **kw)
            order = zigzag(2)
            T.declare("s", int_=True, dom=l)
            st = [T.app("s", lift(k)) for k in range(4)]

            def V(vals):
                a = {pos: v for pos, v in zip(order, vals)}
                return T.exp(T.re(net.apply(p, arr([a[x] for x in np.ndindex(2, 2)], (2, 2))).term()) * (lift(1) / kap))
            with rng.symbolic():
                key = rng.key("key")
                smp = net.apply(p, M, key, method=net.sample)
                C.true("shape of samples", str(tuple(smp.shape)) == str((M, 2, 2)), detail=str(smp.shape))
                m = C.idx("m", M)
                draws, keys, prob = [], [], lift(1)
                for n, pos in enumerate(order):
                    t = smp.term(m, *pos)
                    top = [a for a in rng.find_apps(t, ["CAT%d" % l]) if T.is_zero(t - T.app("CAT%d" % l, *a[1]))]
                    if not top:
                        C.undecided("draw of site %d" % n, "sample is not a single categorical draw")
                        break
                    args = top[0][1]
                    draws.append(t)
                    keys.append(args[0])
                    lg = args[-l:]
                    zz = sum((T.exp(x) for x in lg), lift(0))
                    prob = prob * sum((T.exp(lg[k]) * (T.eq0(t - k)) for k in range(l)), lift(0)) / zz
                else:
                    C.eq("every configuration is drawn with the probability that evaluation assigns", V(draws), prob)
                C.streams("one key per site and sample", keys)

    # the phase is carried by its own outputs: shifting the phase output of local state k by x multiplies the amplitude by exp(i x #{sites in state k}); real-valued networks have none
    for dim, shape, cls, K_ in ((1, (2,), nets.RNN1DGeneral, K1), (2, (2, 2), nets.RNN2DGeneral, K2)):
        for name, kw in [c for c in configs if dim == 1 or "three" not in c[0]]:
            l, real = kw["inputDim"], kw.get("realValuedOutput", False)
            with C.block("%dD %s phase" % (dim, name), K_, limit=100):
                net, p = build(cls, shape[0], shape, hidden=1 if "cell" in kw else None, **kw)
                T.declare("s", int_=True, dom=l)
                n = int(np.prod(shape))
                x = arr([T.app("s", lift(k)) for k in range(n)], shape)
                out = net.apply(p, x)
                if real:
                    C.eq("real-valued output", T.im(out.term()), lift(0))
                    continue
                od = p["params"].get("outputDense", {})
                if not C.struct("output layer with a bias", "bias" in od and tuple(od["bias"].shape) == (2 * (l - 1),), detail=str(list(p["params"]))):
                    continue
                dx = [T.var("dx%d" % k, real=True) for k in range(l - 1)]
                sh = sym.from_fun((2 * (l - 1),), np.float64, lambda k: sum((dx[j] * T.eq0(k - (l - 1 + j)) for j in range(l - 1)), lift(0)))
                q_ = {**p, "params": {**p["params"], "outputDense": {**od, "bias": od["bias"] + sh}}}
                cnt = [sum((T.eq0(T.app("s", lift(k)) - j) for k in range(n)), lift(0)) for j in range(l)]
                C.eq("phase outputs enter as exp(i phase) of the local states", net.apply(q_, x).term() - out.term(), lift(1j) * sum((dx[j] * cnt[j + 1] for j in range(l - 1)), lift(0)))


def battery(B):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import itertools
    import jVMC as jv
    from engine.world import close

    def all_conf(l, shape):
        return np.array(list(itertools.product(range(l), repeat=int(np.prod(shape))))).reshape((-1,) + shape).astype(np.int32)

    def make(dim, L, kw, seed=7):
        cls = jv.nets.RNN1DGeneral if dim == 1 else jv.nets.RNN2DGeneral
        net = cls(L=L, hiddenSize=kw.get("hiddenSize", 3), **{k: v for k, v in kw.items() if k != "hiddenSize"})
        shape = (L,) * dim
        psi = jv.vqs.NQS(net, batchSize=100, seed=seed)
        psi(jnp.zeros((B.D, 1) + shape, dtype=np.int32))
        rg = B.rng("C12%s%s%s" % (dim, L, sorted(map(str, kw.items()))))
        psi.set_parameters(jnp.array(np.asarray(psi.get_parameters()) + 0.8 * rg.normal(size=np.asarray(psi.get_parameters()).size)))
        return psi, shape, kw.get("inputDim", 2), kw.get("logProbFactor", 0.5), rg

    def probs(psi, l, shape, kap):
        S = all_conf(l, shape)
        n = len(S)
        m = -(-n // B.D)
        T_ = np.concatenate([S, np.repeat(S[:1], m * B.D - n, 0)]).reshape((B.D, m) + shape)
        v = np.asarray(psi(jnp.array(T_))).reshape(-1)[:n]
        return S, v, np.exp(v.real / kap)

    def normalised(dim, L, kw):
        psi, shape, l, kap, rg = make(dim, L, kw)
        S, v, p = probs(psi, l, shape, kap)
        if abs(p.sum() - 1) > 1e-9:
            raise AssertionError("probabilities of all %d configurations sum to %.12g" % (len(S), p.sum()))
        if kw.get("realValuedOutput") and np.abs(v.imag).max() > 0:
            raise AssertionError("output is not real")
        od = psi.parameters["params"].get("outputDense", {}) if kw.get("realValuedParams", True) and not kw.get("realValuedOutput") else {}
        if "bias" in od and od["bias"].shape == (2 * (l - 1),):
            dx = rg.normal(size=l - 1)
            q = {**psi.parameters, "params": {**psi.parameters["params"], "outputDense": {**od, "bias": od["bias"].at[l - 1:].add(dx)}}}
            s = S[rg.integers(len(S), size=5)]
            d = np.array([complex(psi.net.apply(q, jnp.array(x)) - psi.net.apply(psi.parameters, jnp.array(x))) for x in s])
            cnt = np.array([[(x == k + 1).sum() for k in range(l - 1)] for x in s])
            close(np.exp(d), np.exp(1j * (cnt @ dx)), 1e-9, "change of the amplitude when the phase outputs are shifted")

    def sampled(dim, L, kw):
        psi, shape, l, kap, rg = make(dim, L, kw)
        s1 = drawn(psi, shape, l, kap)
        first = psi.parameters
        P = np.asarray(psi.get_parameters())
        psi.set_parameters(jnp.array(P + 0.5 * rg.normal(size=P.shape)))
        drawn(psi, shape, l, kap)
        key = jax.random.split(jax.random.PRNGKey(11 + B.seed), B.D)
        close(psi.sample(3000, key, parameters=first), s1, 0, "samples for given parameters")

    def drawn(psi, shape, l, kap):
        S, v, p = probs(psi, l, shape, kap)
        N = 3000
        key = jax.random.split(jax.random.PRNGKey(11 + B.seed), B.D)
        s = np.asarray(psi.sample(N, key))
        if s.shape != (B.D, N) + shape:
            raise AssertionError("samples have shape %s" % (s.shape,))
        if not np.issubdtype(s.dtype, np.integer) or s.min() < 0 or s.max() >= l:
            raise AssertionError("samples are not configurations: %s in [%s, %s]" % (s.dtype, s.min(), s.max()))
        w = l ** np.arange(int(np.prod(shape)))[::-1]
        close(psi.sample(N, key), s, 0, "samples for the same key")
        for d in range(B.D):
            f = np.bincount(s[d].reshape(N, -1) @ w, minlength=len(S))
            z = (f - N * p) / np.sqrt(N * p * (1 - p) + 1)
            if np.abs(z).max() > 6.5:
                k = int(np.abs(z).argmax())
                raise AssertionError("configuration %s drawn %d times of %d, evaluation assigns probability %.4g" % (S[k].tolist(), f[k], N, p[k]))
        if B.D > 1 and (s[0] == s[1]).all():
            raise AssertionError("all devices draw the same samples")
        return s
    lst = [(1, 4, dict()), (1, 3, dict(inputDim=3, depth=2)), (1, 3, dict(inputDim=4, logProbFactor=1., realValuedOutput=True)), (1, 3, dict(cell="LSTM", depth=2)), (1, 3, dict(cell="GRU", realValuedOutput=True)),
           (2, 2, dict()), (2, 3, dict(realValuedOutput=True)), (2, 2, dict(inputDim=3, logProbFactor=1., realValuedOutput=True)), (2, 2, dict(cell="LSTM", depth=2)), (2, 2, dict(cell="GRU"))]
    for dim, L, kw in lst:
        B.case("normalised %dD L=%d %s" % (dim, L, kw), lambda dim=dim, L=L, kw=kw: normalised(dim, L, kw), dim=dim, L=L, **kw)
        B.case("sampled %dD L=%d %s" % (dim, L, kw), lambda dim=dim, L=L, kw=kw: sampled(dim, L, kw), dim=dim, L=L, **kw)
    def marginals(dim, L, kw):
        """larger lattices: all one- and two-site marginals and the mean log-probability of the samples against the exact ones of evaluation"""
        psi, shape, l, kap, rg = make(dim, L, kw)
        S, v, p = probs(psi, l, shape, kap)
        if abs(p.sum() - 1) > 1e-9:
            raise AssertionError("probabilities of all %d configurations sum to %.12g" % (len(S), p.sum()))
        N = 6000
        s = np.asarray(psi.sample(N, jax.random.split(jax.random.PRNGKey(17 + B.seed), B.D))).reshape(B.D * N, -1)
        A = S.reshape(len(S), -1)
        n = A.shape[1]
        for i in range(n):
            for j in range(i, n):
                e = (A[:, i] * A[:, j] * 1.0) @ p
                f = (s[:, i] * s[:, j]).mean()
                sd = np.sqrt((((A[:, i] * A[:, j]) ** 2.0) @ p - e * e) / len(s)) + 1. / len(s)
                if abs(e - f) > 6.5 * sd:
                    raise AssertionError("average of s_%d s_%d over the samples is %.4g, evaluation assigns %.4g" % (i, j, f, e))
        lp = np.log(p)[s @ (l ** np.arange(n)[::-1])]
        ent = (p * np.log(p)).sum()
        sd = np.sqrt((p * np.log(p) ** 2).sum() - ent ** 2) / np.sqrt(len(s)) + 1e-6
        if abs(lp.mean() - ent) > 6.5 * sd:
            raise AssertionError("mean log-probability of the samples %.5g, evaluation assigns %.5g" % (lp.mean(), ent))
    B.case("marginals 2D L=4", lambda: marginals(2, 4, dict(hiddenSize=2, realValuedOutput=True)))
    B.case("marginals 1D L=9", lambda: marginals(1, 9, dict(hiddenSize=2)))
    B.case("normalised 1D complex parameters", lambda: normalised(1, 3, dict(realValuedParams=False)))
    B.case("normalised 2D complex parameters", lambda: normalised(2, 2, dict(realValuedParams=False)))

    def symm(two):
        L = 3
        rnn = jv.nets.RNN1DGeneral(L=L, hiddenSize=3, realValuedOutput=bool(two))
        net = (rnn, jv.nets.FFN(layers=(2,))) if two else rnn
        orb = jv.util.symmetries.get_orbit_1D(L, "translation", "reflection")
        psi = jv.vqs.NQS(net, batchSize=100, seed=3, orbit=orb, avgFun=jv.nets.sym_wrapper.avgFun_Coefficients_Sep)
        psi(jnp.zeros((B.D, 1, L), dtype=np.int32))
        rg = B.rng("sym")
        P = np.asarray(psi.get_parameters())
        psi.set_parameters(jnp.array(P + 0.8 * rg.normal(size=P.size)))
        S, v, p = probs(psi, 2, (L,), 0.5)
        if abs(p.sum() - 1) > 1e-9:
            raise AssertionError("symmetrised probabilities sum to %.12g" % p.sum())
        smp = jv.sampler.MCSampler(psi, (L,), jax.random.PRNGKey(5 + B.seed))
        N = 4000
        s, c, w = smp.sample(numSamples=N)
        s = np.asarray(s).reshape(-1, L)
        f = np.bincount(s @ np.array([4, 2, 1]), minlength=8)
        z = (f - len(s) * p) / np.sqrt(len(s) * p * (1 - p) + 1)
        if np.abs(z).max() > 6.5:
            k = int(np.abs(z).argmax())
            raise AssertionError("configuration %s drawn %d times of %d, evaluation assigns %.4g" % (S[k].tolist(), f[k], len(s), p[k]))
    B.case("symmetrised network, direct sampling", lambda: symm(False))
    B.case("symmetrised amplitude network with phase, direct sampling", lambda: symm(True))
