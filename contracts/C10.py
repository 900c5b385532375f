"""C10  variational parameter vector: get/set/update round trips, and evaluation always uses the current parameters."""


def symbolic(C):
    import numpy as np
    import jax
    import jax.numpy as jnp
    from flax.core.frozen_dict import freeze, FrozenDict
    from engine import harness as H, terms as T, logic, sym
    from engine.terms import lift
    from contracts.C09 import nets
    jv = H.load()
    import jVMC.vqs as vqs
    SNet, spec, L = nets(np, jnp, sym, T, lift)
    C.assume("values and gradients after each change: the network is an arbitrary function of its parameters and the configuration (two parameter arrays, 4 entries); the parameter vector itself: arrays of any shape",
             "floating-point parameters treated as real numbers")
    D, N = sym.sdims("D, N")
    H.DEVDIM[0] = D
    F_ = "jVMC.vqs.NQS."
    FN = [F_ + x for x in ("get_parameters", "set_parameters", "update_parameters", "_param_unflatten", "params", "get_sampler_net", "__call__", "gradients")]

    class Net(SNet):
        frozen = False
        def init(self, key, s):
            p = dict(self.par)
            p["state"] = {"c": sym.inp("cc", (2,), np.complex128 if self.cpx else np.float64)}
            return freeze(p) if self.frozen else p

    def leaves_of(kind, vec):
        if kind in ("real", "real-complex"):
            return [vec[:2], vec[2:4]]
        I = T.IMAG
        return [[vec[0] + I * vec[2], vec[1] + I * vec[3]], [vec[4] + I * vec[6], vec[5] + I * vec[7]]]

    for kind in ("real", "real-complex", "holomorphic", "complex"):
        for frozen in (False, True):
            n = 4 if kind in ("real", "real-complex") else 8
            with C.block("%s network%s" % (kind, ", frozen parameters" if frozen else ""), FN, limit=120):
                with H.patched((vqs, "isclose", lambda *a, **k: kind == "holomorphic")):
                    net = Net(kind)
                    net.frozen = frozen
                    psi = vqs.NQS(net, batchSize=2, seed=1)
                    C.true("no parameters before initialisation", psi.get_parameters() is None and psi.params is None)
                    try:
                        psi.set_parameters(sym.inp("x0", (n,), np.float64))
                        C.true("setting parameters before initialisation is refused", False)
                    except RuntimeError:
                        C.true("setting parameters before initialisation is refused", True)
                    s = sym.inp("s", (D, N, L), np.int32, dom=2)
                    d, k_ = C.idx("d", D), C.idx("n", N)
                    st = [T.app("s", d, k_, lift(j)) for j in range(L)]

                    def vec(P):
                        return [P.term(k) for k in range(n)]

                    def check(tag, want):
                        if not C.true(tag + ": the other collections are still there", "state" in psi.parameters, detail=str(list(psi.parameters))):
                            return
                        g = psi.get_parameters()
                        C.true(tag + ": length", tuple(g.shape) == (n,), detail=str(g.shape))
                        C.eqs(tag + ": parameter vector", [(x, y) for x, y in zip(vec(g), want)])
                        lv = leaves_of(kind, want)
                        val, gr = spec(kind, lv, st)
                        C.eq(tag + ": evaluation uses these parameters", psi(s).term(d, k_), val)
                        gg = psi.gradients(s)
                        for q in range(n):
                            C.eq(tag + ": gradient entry %d uses these parameters" % q, gg.term(d, k_, q), gr[q])
                        f, p = psi.get_sampler_net()
                        one = sym.inp("one", (L,), np.int32, dom=2)
                        v1, _ = spec(kind, lv, [T.app("one", lift(j)) for j in range(L)])
                        C.eq(tag + ": sampler network", f(p, one).term(), T.re(v1))
                        C.eqs(tag + ": other collections kept", [(psi.parameters["state"]["c"].term(j), T.app("cc", lift(j))) for j in range(2)])
                        C.true(tag + ": container type kept", isinstance(psi.parameters, FrozenDict) == frozen)
                    psi(s)
                    init = []
                    for nm in ("pa", "pb"):
                        e = [T.app(nm, *((lift(j),) if nm == "pa" else (lift(0), lift(j)))) for j in range(2)]
                        init += e if n == 4 else [T.re(x) for x in e] + [T.im(x) for x in e]
                    check("initial", init)
                    psi.set_parameters(psi.get_parameters())
                    check("set what was got", init)
                    P = sym.inp("P", (n,), np.float64)
                    Pt = [T.app("P", lift(k)) for k in range(n)]
                    psi.set_parameters(P)
                    check("set", Pt)
                    Q = sym.inp("Q", (n,), np.float64)
                    Qt = [T.app("Q", lift(k)) for k in range(n)]
                    psi.update_parameters(Q)
                    check("update", [a + b for a, b in zip(Pt, Qt)])
                    psi.update_parameters(-1.0 * Q)
                    check("update undone", Pt)
                    psi.set_parameters(Q)
                    check("set again", Qt)
                    psi.update_parameters(P)
                    psi.update_parameters(P)
                    check("two updates", [a + 2 * b for a, b in zip(Qt, Pt)])
                    saved = psi.params
                    psi.set_parameters(P)
                    psi.set_parameters(freeze(saved))
                    check("set a parameter dictionary", [a + 2 * b for a, b in zip(Qt, Pt)])
                    # a second wave function of the same network is not affected
                    psi2 = vqs.NQS(net, batchSize=3, seed=2)
                    psi2(s)
                    psi2.set_parameters(P)
                    check("another wave function with the same network changed", [a + 2 * b for a, b in zip(Qt, Pt)])
    A_, B_, C_ = sym.sdims("A, B, Cc")

    class Any:
        """parameter arrays of any shape: a vector, a matrix in a nested dictionary, a number"""
        def __init__(self, dt):
            self.dt = dt

        def init(self, key, s):
            return {"params": {"a": sym.inp("pa", (A_,), self.dt), "m": {"b": sym.inp("pb", (B_, C_), self.dt)}, "z": sym.inp("pz", (), self.dt)}, "state": {"c": sym.inp("cc", (2,), self.dt)}}

        def apply(self, p, s):
            return p["params"]["z"] * s[0]
    for dt in (np.float64, np.complex128):
        cpx = dt is np.complex128
        with C.block("%s parameter arrays of any shape" % ("complex" if cpx else "real"), [F_ + x for x in ("get_parameters", "set_parameters", "update_parameters", "_param_unflatten", "params")], limit=120):
            with H.patched((vqs, "isclose", lambda *a, **k: cpx)):
                psi = vqs.NQS(Any(dt), batchSize=2, seed=1)
                psi(sym.inp("s", (D, N, L), np.int32, dom=2))
                A, Bc = sym.dim_poly(A_), sym.dim_poly(B_) * sym.dim_poly(C_)
                f = 2 if cpx else 1
                n = f * (A + Bc + 1)
                i, j, k = C.idx("i", A_), C.idx("j", B_), C.idx("k", C_)
                # position of the entries in the vector: arrays in the order of the parameter dictionary, real parts of an array before its imaginary parts
                LAY = [("a", lambda p: p["a"], (i,), lift(0), i, A), ("b", lambda p: p["m"]["b"], (j, k), f * A, j * sym.dim_poly(C_) + k, Bc), ("z", lambda p: p["z"], (), f * (A + Bc), lift(0), lift(1))]

                def check(tag, want):
                    g = psi.get_parameters()
                    C.eq(tag + ": length", sym.dim_poly(g.shape[0]), n)
                    for nm, leaf, ix, off, pos, size in LAY:
                        v = leaf(psi.params).term(*ix)
                        w = want(nm, ix, off + pos, off + pos + size)
                        C.eq(tag + ": array %s" % nm, v, w)
                        C.eq(tag + ": vector holds array %s" % nm, g.term(off + pos), T.re(w) if cpx else w)
                        if cpx:
                            C.eq(tag + ": vector holds the imaginary part of array %s" % nm, g.term(off + size + pos), T.im(w))
                    C.eqs(tag + ": other collections kept", [(psi.parameters["state"]["c"].term(q), T.app("cc", lift(q))) for q in range(2)])
                init = lambda nm, ix, p, q: T.app("p" + nm, *ix)
                check("initial", init)
                psi.set_parameters(psi.get_parameters())
                check("set what was got", init)
                nd = sym.inp("P", (psi.get_parameters().shape[0],), np.float64)
                Q = sym.inp("Q", (psi.get_parameters().shape[0],), np.float64)
                of = lambda v: (lambda nm, ix, p, q: T.app(v, p) + (T.IMAG * T.app(v, q) if cpx else 0))
                psi.set_parameters(nd)
                check("set", of("P"))
                psi.update_parameters(Q)
                check("update", lambda *a: of("P")(*a) + of("Q")(*a))
                psi.update_parameters(-1.0 * Q)
                check("update undone", of("P"))
                psi.set_parameters(Q)
                check("set again", of("Q"))
    H.DEVDIM[0] = None


def battery(B):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import jVMC as jv
    from flax.core.frozen_dict import freeze
    from engine.world import close
    from engine.tabnet import GenNet
    from contracts.C09 import real_nets

    def vec_of(tree):
        out = []
        for x in jax.tree_util.tree_leaves(tree):
            x = np.asarray(x)
            out += [x.real.ravel(), x.imag.ravel()] if np.iscomplexobj(x) else [x.ravel()]
        return np.concatenate(out)

    def run(name):
        rg = B.rng("C10" + name)
        net, l, sh, _ = real_nets(jv)[name]
        s = jnp.array(rg.integers(0, l, (B.D, 5) + sh).astype(np.int32))
        psi = jv.vqs.NQS(net, batchSize=2, seed=3)
        if psi.get_parameters() is not None:
            raise AssertionError("parameters before initialisation")
        psi(s)
        psi2 = jv.vqs.NQS(net, batchSize=2, seed=3)
        psi2(s)
        close(psi.get_parameters(), psi2.get_parameters(), 0, "initial parameters for the same seed")
        P0 = np.array(psi.get_parameters())
        close(P0, vec_of(psi.params), 0, "parameter vector")

        def fun(tree):
            return np.array(jax.vmap(jax.vmap(lambda y: psi.net.apply({"params": tree}, y)))(s))
        tree0, td = jax.tree_util.tree_flatten(psi.params)

        def tree_of(P):
            o, i = [], 0
            for x in tree0:
                m = x.size
                if jnp.iscomplexobj(x):
                    o.append((P[i:i + m] + 1j * P[i + m:i + 2 * m]).reshape(x.shape))
                    i += 2 * m
                else:
                    o.append(P[i:i + m].reshape(x.shape))
                    i += m
            return jax.tree_util.tree_unflatten(td, o)
        P = P0
        hist = []
        for step in range(6 if B.thorough else 4):
            op = rg.integers(0, 3) if step else 0
            Q = 0.3 * rg.normal(size=P0.size)
            fold, pold = psi.get_sampler_net()
            told, vold = psi.params, np.array(fun(tree_of(P))).real
            if op == 0:
                psi.set_parameters(jnp.array(Q))
                P = Q
            elif op == 1:
                psi.update_parameters(jnp.array(Q))
                P = P + Q
            else:
                psi.set_parameters(freeze(tree_of(Q)))
                P = Q
            hist.append(int(op))
            close(psi.get_parameters(), P, 1e-12, "parameter vector after operations %s" % hist)
            close(psi(s), fun(tree_of(P)), 1e-9, "evaluation after operations %s" % hist)
            f, p = psi.get_sampler_net()
            close(np.array(jax.vmap(jax.vmap(lambda y: f(p, y)))(s)), fun(tree_of(P)).real, 1e-9, "sampler network after operations %s" % hist)
            close(np.array(jax.vmap(jax.vmap(lambda y: fold(pold, y)))(s)), vold, 1e-9, "network and parameters handed out before operations %s" % hist)
            close(np.array(fun(told)).real, vold, 1e-9, "parameters read before operations %s" % hist)
        for dlt in (1e-6, 1e-9, 1e-11):
            d = dlt * (1 + rg.random(P0.size))
            psi.set_parameters(jnp.array(P + d))
            if np.abs(np.array(psi.get_parameters()) - P - d).max() > 1e-3 * dlt:
                raise AssertionError("setting parameters that differ by %g from the current ones" % dlt)
            psi.set_parameters(jnp.array(P))
            psi.update_parameters(jnp.array(d))
            if np.abs(np.array(psi.get_parameters()) - P - d).max() > 1e-3 * dlt:
                raise AssertionError("updating the parameters by %g" % dlt)
            psi.set_parameters(jnp.array(P))
        g1 = np.array(psi.gradients(s))
        psi.set_parameters(jnp.array(P0))
        psi.gradients(s)
        psi.set_parameters(jnp.array(P))
        close(psi.gradients(s), g1, 1e-12, "gradient after returning to the same parameters")
        close(psi2.get_parameters(), P0, 0, "another wave function with the same network")
        return len(hist)

    for name in real_nets(jv):
        B.case("history " + name, lambda name=name: run(name), net=name)

    def extra():
        # a network with a further collection of (constant) variables
        import flax.linen as nn

        class Const(nn.Module):
            @nn.compact
            def __call__(self, s):
                w = self.param("w", lambda k, sh: 0.3 * jax.random.normal(k, sh), (4,))
                v = self.variable("consts", "offset", lambda: jnp.array([0.7, -0.4, 0.2, 0.9]))
                x = 2. * s.ravel() - 1
                return jnp.dot(w + v.value, x) + 1j * jnp.dot(w * v.value, x)
        rg = B.rng("extra")
        psi = jv.vqs.NQS(Const(), batchSize=2, seed=3)
        s = rg.integers(0, 2, (B.D, 3, 4)).astype(np.int32)
        psi(jnp.array(s))
        off, x = np.array([0.7, -0.4, 0.2, 0.9]), 2. * s - 1
        for k in range(4):
            P = rg.normal(size=4)
            if k == 1:
                psi.update_parameters(jnp.array(P - Q))
            elif k == 2:
                psi.set_parameters(freeze({"w": jnp.array(P)}))
            else:
                psi.set_parameters(jnp.array(P))
            Q = P
            close(psi.get_parameters(), P, 1e-12, "parameter vector, operation %d" % k)
            close(psi(jnp.array(s)), x @ (P + off) + 1j * (x @ (P * off)), 1e-9, "network with a further collection, operation %d" % k)
            close(psi.gradients(jnp.array(s)), x + 1j * x * off, 1e-9, "gradient of a network with a further collection, operation %d" % k)
    B.case("network with a further variable collection", extra)

    def gen():
        rg = B.rng("gen")
        L = 3
        psi = jv.vqs.NQS(GenNet(L), batchSize=4, seed=3)
        s = jnp.array(rg.integers(0, 2, (B.D, 4, L)).astype(np.int32))
        psi(s)
        key = jax.random.split(jax.random.PRNGKey(3), B.D)
        P0 = psi.get_parameters()
        a = np.array(psi.sample(50, key))
        target = 5
        t = np.zeros((2, 8))
        t[0, target] = 60.
        psi.set_parameters(jnp.array(t.ravel()))
        b = np.array(psi.sample(50, key))
        if not (b @ np.array([4, 2, 1]) == target).all():
            raise AssertionError("sampling after a parameter change does not use the new parameters")
        psi.set_parameters(P0)
        close(psi.sample(50, key), a, 0, "samples after returning to the same parameters")
    B.case("direct sampling follows parameter changes", gen)
