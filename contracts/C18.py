"""C18  the provided feed-forward, Boltzmann-machine and convolutional networks compute the functions they document."""
import numpy as np


def leaf(p, shape):
    """parameter of the given shape (sizes are chosen such that it is unique)"""
    import jax
    c = [x for x in jax.tree_util.tree_leaves(p) if tuple(x.shape) == tuple(shape)]
    if len(c) != 1:
        raise AssertionError("%d parameters of shape %s among %s" % (len(c), shape, [tuple(x.shape) for x in jax.tree_util.tree_leaves(p)]))
    return c[0]


def conv_spec(x, dims, layers, F, strides, boundary, act, zero):
    """x: {position: [features]}; layers: list of (kernel(k, cin, cout), bias(cout) or None, activation index, channels).
    boundary 'periodic': position + k modulo the lattice; 'full': all positions at which the filter overlaps the zero-continued
    lattice; 'same': zero continued, centred filter.  Returns the sum over all positions and channels and their number."""
    for K, b, a, cout in layers:
        cin = len(next(iter(x.values())))
        rng = []
        for n, f, st in zip(dims, F, strides):
            if boundary == "periodic":
                m = -(-n // st)
                rng.append([[(o * st + k) % n for k in range(f)] for o in range(m)])
            elif boundary == "full":
                rng.append([[q + k if 0 <= q + k < n else None for k in range(f)] for q in range(-(f - 1), n, st)])
            else:
                m = -(-n // st)
                tot = max((m - 1) * st + f - n, 0)
                rng.append([[o * st + k - tot // 2 if 0 <= o * st + k - tot // 2 < n else None for k in range(f)] for o in range(m)])
        nd = tuple(len(r) for r in rng)
        y = {}
        for pos in np.ndindex(*nd):
            y[pos] = []
            for co in range(cout):
                t = b(co) if b else zero
                for k in np.ndindex(*F):
                    src = tuple(r[p][j] for r, p, j in zip(rng, pos, k))
                    if None in src:
                        continue
                    for ci in range(cin):
                        t = t + K(k, ci, co) * x[src][ci]
                y[pos].append(act(a, t))
        x, dims = y, nd
    vals = [v for l in x.values() for v in l]
    tot = zero
    for v in vals:
        tot = tot + v
    return tot, len(vals)


CNNS = [  # name, class, lattice, filter, channels, strides, bias, first layer bias, periodic
    ("chain", "CNN", (3,), (2,), (2, 3), (1,), True, False, True),
    ("chain, one layer", "CNN", (4,), (3,), (2,), (1,), True, True, True),
    ("filter longer than chain", "CNN", (2,), (5,), (2,), (1,), True, True, True),
    ("stride 2", "CNN", (4,), (3,), (2, 3), (2,), True, True, True),
    ("square lattice", "CNN", (2, 3), (2, 2), (2,), (1, 1), True, False, True),
    ("square lattice, no bias", "CNN", (2, 2), (1, 2), (2, 3), (1, 1), False, False, True),
    ("open chain", "CNN", (3,), (2,), (2, 3), (1,), True, True, False),
    ("open square lattice", "CNN", (2, 2), (2, 3), (2,), (1, 1), True, False, False),
    ("chain", "CpxCNN", (3,), (2,), (2, 3), (1,), True, False, True),
    ("chain, one layer", "CpxCNN", (4,), (3,), (2,), (1,), True, True, True),
    ("filter longer than chain", "CpxCNN", (2,), (5,), (2,), (1,), True, True, True),
    ("square lattice", "CpxCNN", (2, 3), (2, 2), (2,), (1, 1), True, False, True),
    ("square lattice, no bias", "CpxCNN", (2, 2), (2, 1), (2, 3), (1, 1), False, False, True),
    ("open chain", "CpxCNN", (3,), (3,), (2,), (1,), True, True, False),
    ("first layer bias only", "CNN", (3,), (2,), (2, 3), (1,), False, True, True),
    ("first layer bias only", "CpxCNN", (3,), (2,), (2, 3), (1,), False, True, True)]


def cnn_layers(p, F, channels, bias, first, nact, get):
    out, cin = [], 1
    for n, c in enumerate(channels):
        K = leaf(p, tuple(F) + (cin, c))
        b = (first if n == 0 else bias)
        B = leaf(p, (c,)) if b else None
        out.append((lambda k, i, o, K=K: get(K, tuple(k) + (i, o)), (lambda o, B=B: get(B, (o,))) if b else None, min(n, nact - 1), c))
        cin = c
    return out


def symbolic(C):
    import jax
    import jax.numpy as jnp
    from engine import harness as H, terms as T, logic, sym
    from engine.terms import lift
    jv = H.load()
    import jVMC.nets as nets
    import jVMC.nets.activation_functions as af
    import jVMC.util.symmetries as sy
    C.assume("parameters are symbolic, activation functions arbitrary (uninterpreted) functions, configurations symbolic with entries 0 and 1",
             "RBMs: any number of sites and hidden units; FFN: any widths, up to three layers; numbers of channels, filter sizes, strides and lattice sizes of the CNNs are fixed per obligation",
             "flax Dense and Conv are run as they are, the convolution primitive by its definition")
    N = "jVMC.nets."

    def ufn(name, cpx):
        T.declare(name, real=not cpx)

        def f(x):
            return sym.ufun(name, x, dtype=np.complex128 if cpx else np.float64) if x.ndim == 0 else jax.vmap(f)(x)
        return f

    def params(net, shape):
        p = net.init(jax.random.PRNGKey(0), jnp.zeros(shape, dtype=np.int32))
        cnt = [0]

        def one(x):
            cnt[0] += 1
            T.declare("w%d" % cnt[0], real=not np.issubdtype(x.dtype, np.complexfloating))
            return sym.inp("w%d" % cnt[0], x.shape, x.dtype)
        return p, jax.tree_util.tree_map(one, p)
    T.declare("s", int_=True, dom=2)
    conf = lambda shape: sym.from_fun(shape, np.int32, lambda *i: T.app("s", *i))
    cosh = lambda x: (T.exp(x) + T.exp(-x)) * T.Q(1, 2)

    for dt, nm in ((np.float64, "real"), (np.complex128, "complex")):
        with C.block("log_cosh %s" % nm, [N + "activation_functions.log_cosh"], limit=60):
            T.declare("x" + nm, real=dt == np.float64)
            x = sym.inp("x" + nm, (), dt)
            C.eq("exp(log_cosh(x)) = cosh(x)", T.exp(af.log_cosh(x).term()), cosh(x.term()))
            C.eq("even", T.exp(af.log_cosh(-x).term()), T.exp(af.log_cosh(x).term()))
    with C.block("polynomials", [N + "activation_functions." + k for k in ("square", "poly5", "poly6")], limit=30):
        T.declare("x", real=True)
        x = sym.inp("x", (), np.float64)
        xt = x.term()
        fl = lambda v: lift(float(v))
        C.eq("square", af.square(x).term(), xt * xt)
        C.eq("poly5", af.poly5(x).term(), xt - fl(0.333333333) * xt * xt * xt + fl(0.133333333) * xt * xt * xt * xt * xt)
        C.eq("poly6", af.poly6(x).term(), fl(0.5) * xt * xt - fl(0.083333333) * xt**4 + fl(0.022222222) * xt**6)

    for cls, shape, lin in (("RBM", (3,), True), ("RBM", (1, 2), True), ("CpxRBM", (3,), True), ("CpxRBM", (1, 2), True), ("CpxRBM_Nospinflip", (3,), False), ("CpxRBM_Nospinflip", (2, 1), False)):
        for bias in (False, True):
            with C.block("%s %s bias=%s" % (cls, shape, bias), [N + "rbm.%s.__call__" % cls, N + "activation_functions.log_cosh"], limit=120):
                net = getattr(nets, cls)(numHidden=2, bias=bias) if hasattr(nets, cls) else getattr(jv.nets.rbm, cls)(numHidden=2, bias=bias)
                n = int(np.prod(shape))
                p0, p = params(net, shape)
                W = leaf(p, (n, 2)) if n != 2 else leaf(p, (2, 2))
                b = leaf(p, (2,)) if bias else None
                out = net.apply(p, conf(shape))
                C.true("scalar", tuple(out.shape) == (), detail=str(out.shape))
                st = [T.app("s", *map(lift, k)) for k in np.ndindex(*shape)]
                spec = lift(1)
                for h in range(2):
                    a = b.term(h) if bias else lift(0)
                    for i in range(n):
                        a = a + W.term(i, h) * (2 * st[i] - 1 if lin else st[i])
                    spec = spec * cosh(a)
                C.eq("exp(log psi) = product over the hidden units of cosh(bias + weights . spins)", T.exp(out.term()), spec)
                C.true("documented parameter type", all(np.issubdtype(x.dtype, np.complexfloating) == (cls != "RBM") for x in jax.tree_util.tree_leaves(p0)))

    acts = [ufn("A%d" % k, False) for k in range(3)]
    for shape, layers, nact, bias in (((4,), (3, 2), 1, True), ((4,), (3, 2), 2, True), ((4,), (3, 2), 3, False), ((2, 2), (3,), 1, False), ((2, 2), (3,), 2, True), ((3,), (), 1, True)):
        with C.block("FFN %s layers=%s act=%d bias=%s" % (shape, layers, nact, bias), [N + "ffn.FFN.__call__"], limit=100):
            net = nets.FFN(layers=layers, bias=bias, actFun=tuple(acts[:nact]))
            cnc = nets.FFN(layers=layers, bias=bias)
            p0, p = params(cnc, shape)
            out = net.apply(p, conf(shape))
            C.true("scalar", tuple(out.shape) == (), detail=str(out.shape))
            v = [2 * T.app("s", *map(lift, k)) - 1 for k in np.ndindex(*shape)]
            for n, w in enumerate(tuple(layers) + (1,)):
                K = leaf(p, (len(v), w))
                b = leaf(p, (w,)) if bias else None
                v = [T.app("A%d" % min(n, nact - 1), sum((K.term(i, o) * v[i] for i in range(len(v))), b.term(o) if bias else lift(0))) for o in range(w)]
            C.eq("layers applied in order with their activation functions, the last one repeated", out.term(), v[0])
            C.true("real parameters", all(x.dtype == np.float64 for x in jax.tree_util.tree_leaves(p0)))

    # ---- any number of sites, hidden units and units per layer
    def lc(t, cpx):
        return af.log_cosh(sym.from_fun((), np.complex128 if cpx else np.float64, lambda: t)).term()
    for cls, lin in (("RBM", True), ("CpxRBM", True), ("CpxRBM_Nospinflip", False)):
        for bias in (False, True):
            with C.block("%s of any size bias=%s" % (cls, bias), [N + "rbm.%s.__call__" % cls], limit=60):
                LL, MM = sym.sdims("Ls, Mh")
                cpx = cls != "RBM"
                mk = lambda n: getattr(nets, cls)(numHidden=n, bias=bias) if hasattr(nets, cls) else getattr(jv.nets.rbm, cls)(numHidden=n, bias=bias)
                p0 = mk(3).init(jax.random.PRNGKey(0), jnp.zeros((5,), dtype=np.int32))
                T.declare("RW" + cls, real=not cpx)
                T.declare("RB" + cls, real=not cpx)
                p = jax.tree_util.tree_map(lambda x: sym.inp("RW" + cls, (LL, MM), x.dtype) if x.shape == (5, 3) else sym.inp("RB" + cls, (MM,), x.dtype) if x.shape == (3,) else None, p0)
                out = mk(MM).apply(p, sym.inp("s", (LL,), np.int32, dom=2))
                i, h = T.fresh("i"), T.fresh("h")
                x = T.app("s", i)
                a = T.mk_sum([(i, sym.dim_poly(LL))], T.app("RW" + cls, i, h) * (2 * x - 1 if lin else x)) + (T.app("RB" + cls, h) if bias else lift(0))
                C.true("scalar", tuple(out.shape) == (), detail=str(out.shape))
                sums = [T.mk_sum([(h, sym.dim_poly(MM))], v) for v in (lc(a, cpx), T.log(cosh(a)), T.log(2 * cosh(a)) - T.log(lift(2)))]
                C.eq("log psi = sum over the hidden units of log cosh(bias + weights . spins)", T.exp(out.term()), T.exp(next((x for x in sums if T.is_zero(x - out.term())), sums[0])))
    for nl, nact, bias in ((0, 1, True), (1, 1, True), (1, 2, False), (2, 1, True), (2, 2, False), (2, 3, True)):
        with C.block("FFN of any width layers=%d act=%d bias=%s" % (nl, nact, bias), [N + "ffn.FFN.__call__"], limit=60):
            dims = sym.sdims("Ls, M1, M2")
            wid = dims[1:1 + nl]
            acts_ = [ufn("A%d" % k, False) for k in range(3)]
            num = [5, 3, 2][:1 + nl]
            p0 = nets.FFN(layers=tuple(num[1:]), bias=bias).init(jax.random.PRNGKey(0), jnp.zeros((5,), dtype=np.int32))
            back = {n: d for n, d in zip([5, 3, 2], dims)}
            nin = num + [1]
            for k in range(nl + 1):
                T.declare("FK%d" % k, real=True)
                T.declare("FB%d" % k, real=True)

            def one(x):
                for k in range(nl + 1):
                    if x.shape == (nin[k], nin[k + 1]):
                        return sym.inp("FK%d" % k, tuple(back.get(n, n) for n in x.shape), x.dtype)
                    if x.shape == (nin[k + 1],):
                        return sym.inp("FB%d" % k, tuple(back.get(n, n) for n in x.shape), x.dtype)
            out = nets.FFN(layers=tuple(wid), bias=bias, actFun=tuple(acts_[:nact])).apply(jax.tree_util.tree_map(one, p0), sym.inp("s", (dims[0],), np.int32, dom=2))
            v = lambda i: 2 * T.app("s", i) - 1
            for k in range(nl + 1):
                def nxt(o, v=v, k=k):
                    i = T.fresh("i")
                    return T.app("A%d" % min(k, nact - 1), T.mk_sum([(i, sym.dim_poly(dims[k]))], T.app("FK%d" % k, i, o) * v(i)) + (T.app("FB%d" % k, o) if bias else lift(0)))
                v = nxt
            C.true("scalar", tuple(out.shape) == (), detail=str(out.shape))
            C.eq("layers applied in order with their activation functions, the last one repeated", out.term(), v(lift(0)))

    for nm, cls, shape, F, ch, st, bias, first, per in CNNS:
        with C.block("%s %s" % (cls, nm), [N + "cnn.%s.__call__" % cls], limit=150):
            cpx = cls == "CpxCNN"
            act = [ufn("B%d%d" % (cpx, k), cpx) for k in range(2)]
            nact = 2 if len(ch) > 1 and nm == "chain" else 1
            kw = dict(F=F, channels=ch, strides=st, bias=bias, firstLayerBias=first, periodicBoundary=per)
            net = getattr(nets, cls)(actFun=tuple(act[:nact]), **kw)
            cnc = getattr(nets, cls)(**kw)
            p0, p = params(cnc, shape)
            x = conf(shape)
            out = net.apply(p, x)
            C.true("scalar", tuple(out.shape) == (), detail=str(out.shape))
            C.true("documented parameter type", all(np.issubdtype(w.dtype, np.complexfloating) == cpx for w in jax.tree_util.tree_leaves(p0)))
            lay = cnn_layers(p, F, ch, bias, first, nact, lambda K, i: K.term(*i))
            tot, num = conv_spec({k: [2 * T.app("s", *map(lift, k)) - 1] for k in np.ndindex(*shape)}, shape, lay, F, st,
                                 "periodic" if per else ("same" if cpx else "full"), lambda a, t: T.app("B%d%d" % (cpx, a), t), lift(0))
            C.eq("sum over all positions and channels of the last layer over the square root of their number", out.term() * T.sqrt(lift(num)), tot)
            if per and set(st) == {1}:
                for ax in range(len(shape)):
                    y = sym.from_fun(shape, np.int32, lambda *i, ax=ax: T.app("s", *[lift((j.as_int() + (k == ax)) % shape[k]) for k, j in enumerate(i)]))
                    C.eq("invariant under translations along axis %d" % ax, net.apply(p, y).term(), out.term())

    for L, syms in ((2, ("translation",)), (3, ("reflection",)), (3, ("spinflip",)), (2, ("translation", "spinflip"))):
        with C.block("CpxCNNSym %s L=%d" % (syms, L), [N + "cnn.CpxCNNSym.__call__", N + "cnn.CpxCNNSym.setup", N + "cnn.CpxCNN.__call__"], limit=150):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                orb = sy.get_orbit_1D(L, *syms)
            kw = dict(F=(2,), channels=(2,), strides=(1,), bias=True, firstLayerBias=True)
            net = nets.CpxCNNSym(orbit=orb, actFun=(ufn("B10", True),), **kw) if hasattr(nets, "CpxCNNSym") else jv.nets.cnn.CpxCNNSym(orbit=orb, actFun=(ufn("B10", True),), **kw)
            p0, p = params(net.clone(actFun=(af.poly6,)), (L,))
            out = net.apply(p, conf((L,))).term()
            lay = cnn_layers(p, (2,), (2,), True, True, 1, lambda K, i: K.term(*i))
            O = np.asarray(orb.orbit)
            tot = lift(0)
            for g in O:
                spin = {}
                for i in range(L):
                    spin[(i,)] = [sum((int(g[i, j]) * (2 * T.app("s", lift(j)) - 1) for j in range(L)), lift(0))]
                t, num = conv_spec(spin, (L,), lay, (2,), (1,), "periodic", lambda a, t: T.app("B10", t), lift(0))
                tot = tot + t
            C.eq("average of the plain network over all symmetry operations applied to the spins", out * T.sqrt(lift(num)) * len(O), tot)
            for k, g in enumerate(O):
                y = sym.from_fun((L,), np.int32, lambda i, g=g: (sum((int(g[i.as_int(), j]) * (2 * T.app("s", lift(j)) - 1) for j in range(L)), lift(0)) + 1) * T.Q(1, 2))
                C.eq("invariant under symmetry operation %d" % k, net.apply(p, y).term(), out)

    with C.block("TwoNets", [N + "two_nets_wrapper.TwoNets." + k for k in ("__call__", "eval_real", "_sample_fun", "__post_init__")], limit=60):
        import flax.linen as nn
        T.declare("NA", real=True)
        T.declare("NB", real=True)
        T.declare("SM", int_=True)

        class Plain(nn.Module):
            nm: str

            def __call__(self, s):
                return sym.ufun(self.nm, s[0], s[1], dtype=np.float64)

        class Gen(Plain):
            def sample(self, *a):
                return ("sampled", self.nm) + a
        s = conf((2,))
        st = [T.app("s", lift(0)), T.app("s", lift(1))]
        for cls in (Plain, Gen):
            net = nets.TwoNets(nets=(cls("NA"), Plain("NB")))
            C.eq("value: amplitude + i phase", net.apply({}, s).term(), T.app("NA", *st) + T.IMAG * T.app("NB", *st))
            C.eq("eval_real: amplitude only", net.apply({}, s, method=net.eval_real).term(), T.app("NA", *st))
            C.true("generator exactly if the amplitude network is one", ("sample" in dir(net)) == (cls is Gen))
        r = net.apply({}, 5, "key", method=net.sample)
        C.true("samples come from the amplitude network with the same arguments", r == ("sampled", "NA", 5, "key"), detail=str(r))


def battery(B):
    import jax
    import jax.numpy as jnp
    import jVMC as jv
    from engine.world import close
    nets = jv.nets
    af = jv.nets.activation_functions
    rg = B.rng("C18")

    def rnd(p, scale=0.6):
        def one(x):
            v = rg.normal(size=x.shape) * scale
            return jnp.array(v + 1j * rg.normal(size=x.shape) * scale if np.issubdtype(x.dtype, np.complexfloating) else v, dtype=x.dtype)
        return jax.tree_util.tree_map(one, p)

    def logcosh():
        for x in (0., 1e-9, 0.3, -0.3, 5., -7., 400., -400., 1e4, -1e4):
            for y in (None, 0.0, 0.7, -3.):
                z = x if y is None else complex(x, y)
                v = complex(af.log_cosh(jnp.asarray(z)))
                if not np.isfinite(v):
                    raise AssertionError("log_cosh(%s) = %s" % (z, v))
                a = z if np.real(z) > 0 else -z
                w = a + np.log((1 + np.exp(-2 * a)) / 2)
                if abs(v.real - np.real(w)) > 1e-12 * (1 + abs(w)) or abs(np.exp(1j * (v.imag - np.imag(w))) - 1) > 1e-10:
                    raise AssertionError("log_cosh(%s) = %s instead of %s" % (z, v, w))
                g = jax.grad(lambda t: jnp.real(af.log_cosh(t)), holomorphic=False)(jnp.asarray(float(x)))
                if abs(float(g) - np.tanh(x)) > 1e-9:
                    raise AssertionError("derivative of log_cosh at %s is %s" % (x, g))
    B.case("log_cosh", logcosh)

    def actdict():
        x = np.linspace(-0.4, 0.4, 9)
        ref = dict(square=lambda x: x**2, poly5=lambda x: x - x**3 / 3 + 2 * x**5 / 15, poly6=lambda x: x**2 / 2 - x**4 / 12 + x**6 / 45,
                   elu=lambda x: np.where(x > 0, x, np.expm1(x)), relu=lambda x: np.maximum(x, 0), tanh=np.tanh)
        for k, f in ref.items():
            close(af.activationFunctions[k](jnp.array(x)), f(x), 1e-8, k)
    B.case("activation functions", actdict)

    def rbm(cls, shape, bias, H, scale):
        net = getattr(jv.nets.rbm, cls)(numHidden=H, bias=bias)
        n = int(np.prod(shape))
        p0 = net.init(jax.random.PRNGKey(1), jnp.zeros(shape, dtype=np.int32))
        for x in jax.tree_util.tree_leaves(p0):
            if np.issubdtype(x.dtype, np.complexfloating) != (cls != "RBM"):
                raise AssertionError("parameters of type %s" % x.dtype)
        p = rnd(p0, scale)
        W = np.asarray(leaf(p, (n, H)))
        b = np.asarray(leaf(p, (H,))) if bias else 0.
        for _ in range(4):
            s = rg.integers(0, 2, size=shape)
            v = complex(net.apply(p, jnp.array(s)))
            x = (s if "Nospin" in cls else 2 * s - 1).ravel() @ W + b
            a = np.where(np.real(x) > 0, x, -x)
            w = (a + np.log((1 + np.exp(-2 * a)) / 2)).sum()
            if abs(v.real - np.real(w)) > 1e-10 * (1 + abs(w)) or abs(np.exp(1j * (v.imag - np.imag(w))) - 1) > 1e-9:
                raise AssertionError("%s at %s is %s instead of %s" % (cls, s.tolist(), v, w))
    for cls, shape in (("RBM", (5,)), ("RBM", (2, 3)), ("CpxRBM", (5,)), ("CpxRBM", (2, 3)), ("CpxRBM_Nospinflip", (4,)), ("CpxRBM_Nospinflip", (2, 2))):
        for bias in (False, True):
            for scale in (0.5, 20., 400.):
                B.case("%s %s bias=%s scale=%s" % (cls, shape, bias, scale), lambda cls=cls, shape=shape, bias=bias, scale=scale: rbm(cls, shape, bias, 3, scale))

    A = (lambda x: jnp.tanh(x) + 0.1 * x**2, lambda x: jnp.sin(x) + x, lambda x: x**2 - 0.3 * x)
    An = (lambda x: np.tanh(x) + 0.1 * x**2, lambda x: np.sin(x) + x, lambda x: x**2 - 0.3 * x)

    def ffn(shape, layers, nact, bias):
        net = nets.FFN(layers=layers, bias=bias, actFun=A[:nact])
        p0 = net.init(jax.random.PRNGKey(1), jnp.zeros(shape, dtype=np.int32))
        for x in jax.tree_util.tree_leaves(p0):
            if x.dtype != np.float64:
                raise AssertionError("parameters of type %s" % x.dtype)
        p = rnd(p0)
        for _ in range(4):
            s = rg.integers(0, 2, size=shape)
            v = 2. * s.ravel() - 1
            for n, w in enumerate(tuple(layers) + (1,)):
                v = v @ np.asarray(leaf(p, (len(v), w))) + (np.asarray(leaf(p, (w,))) if bias else 0)
                v = An[min(n, nact - 1)](v)
            close(net.apply(p, jnp.array(s)), v[0], 1e-10, "FFN at %s" % s.tolist())
    for shape, layers, nact, bias in (((5,), (4, 3), 1, True), ((5,), (4, 3), 2, True), ((5,), (4, 3), 3, False), ((2, 3), (4,), 2, True), ((5,), (), 1, True), ((5,), (4, 3, 2), 2, False)):
        B.case("FFN %s %s act=%d bias=%s" % (shape, layers, nact, bias), lambda a=(shape, layers, nact, bias): ffn(*a))

    def cnn(cls, shape, F, ch, st, bias, first, per, nact=1):
        cpx = cls == "CpxCNN"
        net = getattr(nets, cls)(F=F, channels=ch, strides=st, bias=bias, firstLayerBias=first, periodicBoundary=per, actFun=A[:nact])
        p0 = net.init(jax.random.PRNGKey(1), jnp.zeros(shape, dtype=np.int32))
        for x in jax.tree_util.tree_leaves(p0):
            if np.issubdtype(x.dtype, np.complexfloating) != cpx:
                raise AssertionError("parameters of type %s" % x.dtype)
        p = rnd(p0, 0.4)
        lay = cnn_layers(p, F, ch, bias, first, nact, lambda K, i: np.asarray(K)[i])
        for _ in range(3):
            s = rg.integers(0, 2, size=shape)
            v = complex(net.apply(p, jnp.array(s)))
            tot, num = conv_spec({k: [2. * s[k] - 1] for k in np.ndindex(*shape)}, shape, lay, F, st, "periodic" if per else ("same" if cpx else "full"), lambda a, t: An[a](t), 0.)
            close(v, tot / np.sqrt(num), 1e-10, "%s at %s" % (cls, s.tolist()))
            if per and set(st) == {1}:
                for ax in range(len(shape)):
                    close(complex(net.apply(p, jnp.array(np.roll(s, 1, ax)))), v, 1e-10, "translate of %s" % s.tolist())
    lst = CNNS + [("chain", "CNN", (6,), (3,), (2, 3, 4), (1,), True, True, True), ("lattice", "CNN", (3, 4), (2, 3), (2, 3), (1, 1), True, True, True), ("rectangle stride", "CNN", (4, 6), (3, 2), (2,), (2, 3), True, True, True),
                  ("chain", "CpxCNN", (6,), (3,), (2, 3, 4), (1,), True, True, True), ("lattice", "CpxCNN", (3, 4), (2, 3), (2, 3), (1, 1), True, True, True), ("open", "CpxCNN", (3, 4), (2, 3), (2, 3), (1, 1), True, True, False),
                  ("open", "CNN", (5,), (3,), (2, 3), (1,), True, False, False)]
    for nm, cls, shape, F, ch, st, bias, first, per in lst:
        for nact in (1, 2) if len(ch) > 1 else (1,):
            B.case("%s %s %s F=%s act=%d" % (cls, nm, shape, F, nact), lambda a=(cls, shape, F, ch, st, bias, first, per, nact): cnn(*a))

    def cnnsym(L, syms):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            orb = jv.util.symmetries.get_orbit_1D(L, *syms)
        kw = dict(F=(2,), channels=(2, 3), strides=(1,), actFun=A[:1], bias=True, firstLayerBias=True)
        net = jv.nets.cnn.CpxCNNSym(orbit=orb, **kw)
        p = rnd(net.init(jax.random.PRNGKey(1), jnp.zeros((L,), dtype=np.int32)), 0.4)
        lay = cnn_layers(p, (2,), (2, 3), True, True, 1, lambda K, i: np.asarray(K)[i])
        O = np.asarray(orb.orbit)
        for _ in range(3):
            s = rg.integers(0, 2, size=(L,))
            v = complex(net.apply(p, jnp.array(s)))
            w = 0
            for g in O:
                x = g @ (2 * s - 1)
                tot, num = conv_spec({(i,): [float(x[i])] for i in range(L)}, (L,), lay, (2,), (1,), "periodic", lambda a, t: An[a](t), 0.)
                w = w + tot / np.sqrt(num) / len(O)
                close(complex(net.apply(p, jnp.array((x + 1) // 2))), v, 1e-10, "image of %s" % s.tolist())
            close(v, w, 1e-10, "CpxCNNSym at %s" % s.tolist())
    for L, syms in ((4, ("translation",)), (4, ("reflection",)), (4, ("spinflip",)), (3, ("translation", "reflection", "spinflip"))):
        B.case("CpxCNNSym %s L=%d" % (syms, L), lambda a=(L, syms): cnnsym(*a))

    def two():
        L = 4
        n1, n2 = nets.FFN(layers=(3,)), nets.RBM(numHidden=2)
        net = nets.TwoNets(nets=(n1, n2))
        s = jnp.array(rg.integers(0, 2, size=(L,)))
        p = rnd(net.init(jax.random.PRNGKey(2), s))["params"]
        a = n1.apply({"params": p["nets_0"]}, s)
        b = n2.apply({"params": p["nets_1"]}, s)
        close(net.apply({"params": p}, s), complex(float(a), float(b)), 1e-12, "TwoNets")
        close(net.apply({"params": p}, s, method=net.eval_real), float(a), 1e-12, "TwoNets.eval_real")
        r = nets.TwoNets(nets=(nets.RNN1DGeneral(L=L, hiddenSize=2, realValuedOutput=True), n2))
        if "sample" in dir(net) or "sample" not in dir(r):
            raise AssertionError("TwoNets offers sampling exactly if the amplitude network does")
        p = rnd(r.init(jax.random.PRNGKey(2), s))["params"]
        x = r.apply({"params": p}, 20, jax.random.PRNGKey(4), method=r.sample)
        y = r.nets[0].apply({"params": p["nets_0"]}, 20, jax.random.PRNGKey(4), method=r.nets[0].sample)
        close(x, y, 0, "samples of TwoNets")
    B.case("TwoNets", two)
