"""C09  NQS evaluation and gradients: per-configuration values, independent of batching; gradient layout = parameter layout."""


def nets(np, jnp, sym, T, lift):
    """stand-in networks: arbitrary functions of all parameters and the configuration"""
    L = 2
    LEAVES = (("a", (2,)), ("b", ((1, 2))))

    class SNet:
        def __init__(self, kind):
            self.kind = kind
            self.cpx = kind in ("holomorphic", "complex") or kind.startswith("entry")
            dt = np.complex128 if self.cpx else np.float64
            for nm in ("RE", "IM"):
                T.declare(nm, real=True)
            T.declare("HOL", real=False)
            self.par = {"params": {"m": {"b": sym.inp("pb", (1, 2), dt)}, "a": sym.inp("pa", (2,), dt)}}

        def init(self, key, s):
            return self.par

        def apply(self, p, s):
            lv = [p["params"]["a"], p["params"]["m"]["b"]]
            if self.kind == "real":
                return sym.ufun("RE", *lv, s, dtype=np.float64)
            if self.kind == "real-complex":
                return sym.ufun("RE", *lv, s, dtype=np.float64) + 1j * sym.ufun("IM", *lv, s, dtype=np.float64)
            if self.kind == "holomorphic":
                return sym.ufun("HOL", *lv, s, dtype=np.complex128)
            if self.kind.startswith("entry"):
                # arbitrary holomorphic function of all parameters plus the complex conjugate of one of them
                z = [lv[0][0], lv[0][1], lv[1][0, 0], lv[1][0, 1]][int(self.kind[-1])]
                return sym.ufun("HOL", *lv, s, dtype=np.complex128) + jnp.real(z) - 1j * jnp.imag(z)
            ri = [f(x) for x in lv for f in (jnp.real, jnp.imag)]
            return sym.ufun("RE", *ri, s, dtype=np.float64) + 1j * sym.ufun("IM", *ri, s, dtype=np.float64)

    def spec(kind, leaves, s):
        """(value, [derivative wrt each entry of the real parameter vector]); leaves = [[terms of a], [terms of b]]"""
        a, b = leaves
        I = T.IMAG
        d = lambda f, k, args: T.app("%s'%d" % (f, k), *args)
        if kind in ("real", "real-complex"):
            args = a + b + s
            val = T.app("RE", *args) + (I * T.app("IM", *args) if kind != "real" else 0)
            return val, [d("RE", k, args) + (I * d("IM", k, args) if kind != "real" else 0) for k in range(4)]
        if kind == "holomorphic":
            args = a + b + s
            g = [d("HOL", k, args) for k in range(4)]
            return T.app("HOL", *args), g[:2] + [I * x for x in g[:2]] + g[2:] + [I * x for x in g[2:]]
        ra, ia, rb, ib = [T.re(x) for x in a], [T.im(x) for x in a], [T.re(x) for x in b], [T.im(x) for x in b]
        args = ra + ia + rb + ib + s
        return T.app("RE", *args) + I * T.app("IM", *args), [d("RE", k, args) + I * d("IM", k, args) for k in range(8)]
    for f in ("RE", "IM"):
        for k in range(8):
            T.declare("%s'%d" % (f, k), real=True)
    for k in range(4):
        T.declare("HOL'%d" % k, real=False)
    return SNet, spec, L


def symbolic(C):
    import numpy as np
    import jax
    import jax.numpy as jnp
    from engine import harness as H, terms as T, logic, sym
    from engine.terms import lift, ONE, ZERO
    jv = H.load()
    import jVMC.vqs as vqs
    gd = jv.global_defs
    SNet, spec, L = nets(np, jnp, sym, T, lift)
    C.assume("the network is an arbitrary differentiable function of its parameters and the configuration (two parameter arrays, 4 entries)",
             "for complex parameters the outcome of the automatic holomorphicity test (Cauchy-Riemann at one configuration) is assumed to classify the network correctly; that the tested quantity vanishes for holomorphic networks and does not when a single parameter violates the condition is an obligation",
             "JAX differentiation is trusted; numbers of devices and samples and the batch size are symbolic (any)")
    D, N, A_, B_, C_, b_ = sym.sdims("D, N, A, B, Cc, b")
    H.DEVDIM[0] = D
    F_ = "jVMC.vqs.NQS."

    def mk(kind, b):
        return vqs.NQS(SNet(kind), batchSize=b, seed=1)
    pa = [T.app("pa", lift(k)) for k in range(2)]
    pb = [T.app("pb", lift(0), lift(k)) for k in range(2)]
    KINDS = ("real", "real-complex", "holomorphic", "complex")
    for kind in KINDS:
        for b in (1, 2, 3, b_):
            if kind in ("real", "complex") and b is not b_ and b != 2 and C.tier == "quick":
                continue
            with C.block("%s network, batch %s" % (kind, "size arbitrary" if b is b_ else b), [F_ + "__call__", F_ + "_eval", F_ + "gradients", F_ + "_get_gradients", F_ + "init_net", "jVMC.vqs.create_batches"] +
                         {"real": ["jVMC.vqs.flat_gradient"], "real-complex": ["jVMC.vqs.flat_gradient"], "holomorphic": ["jVMC.vqs.flat_gradient_holo"], "complex": ["jVMC.vqs.flat_gradient_cpx_nonholo"]}[kind], limit=150):
                # outcome of the numerical Cauchy-Riemann test: free (both values) for real parameters, assumed correct otherwise
                tests = []

                def close_(x, y=0., **k):
                    tests.append((x, y, k))
                    return kind == "holomorphic" or (kind == "real-complex" and b is not b_ and b == 3)
                with H.patched((vqs, "isclose", close_)):
                    psi = mk(kind, b)
                    s = sym.inp("s", (D, N, L), np.int32, dom=2)
                    d, n = C.idx("d", D), C.idx("n", N)
                    st = [T.app("s", d, n, lift(j)) for j in range(L)]
                    val, gr = spec(kind, [pa, pb], st)
                    v = psi(s)
                    C.true("shape of values", str(tuple(v.shape)) == str((D, N)), detail=str(v.shape))
                    C.eq("value at every configuration", v.term(d, n), val)
                    for x, y, k in tests:
                        C.struct("the tolerance of the Cauchy-Riemann test is at rounding level", k.get("rel_tol", 1e-9) <= 1e-9 and k.get("abs_tol", 0.) <= 1e-12 and not hasattr(y, "term") and y == 0, detail=str(k))
                        if kind == "holomorphic" and hasattr(x, "term"):
                            C.eq("a holomorphic network passes the Cauchy-Riemann test", x.term(), ZERO)
                    g = psi.gradients(s)
                    C.true("shape of gradients", str(tuple(g.shape)) == str((D, N, len(gr))), detail=str(g.shape))
                    for k in range(len(gr)):
                        C.eq("gradient entry %d" % k, g.term(d, n, k), gr[k])
                    C.eqs("real and imaginary derivative index: number of parameters", [(lift(len(np.zeros(len(gr)))), lift(len(psi.get_parameters())))])
                    if kind != "complex":
                        gd_ = psi.gradients_dict(s)
                        ix = psi.grad_dict_to_vec_map()
                        fl, fi = jax.tree_util.tree_leaves(gd_), jax.tree_util.tree_leaves(ix)
                        C.true("dictionary structure", jax.tree_util.tree_structure(gd_) == jax.tree_util.tree_structure(ix) == jax.tree_util.tree_structure(psi.params))
                        for l_, (x, i) in enumerate(zip(fl, fi)):
                            i = np.asarray(i)
                            for k in range(int(x.shape[2])):
                                C.eq("dictionary leaf %d entry %d" % (l_, k), x.term(d, n, k), gr[int(i[k])])
                        C.true("dictionary covers all entries once", sorted(int(k) for i in fi for k in np.asarray(i)) == list(range(len(gr))))
    for e in range(4):
        with C.block("network that is not holomorphic in parameter %d only" % e, [F_ + "init_net"], limit=60):
            tests = []

            def close_(x, y=0., **k):
                tests.append((x, y, k))
                return False
            with H.patched((vqs, "isclose", close_)):
                psi = mk("entry%d" % e, 2)
                psi(sym.inp("s", (D, N, L), np.int32, dom=2))
            for x, y, k in tests:
                if hasattr(x, "term"):
                    v = x.term()
                    if T.is_zero(v) or v.is_const():
                        C.true("the Cauchy-Riemann test sees it", not T.is_zero(v), detail="tested quantity %s" % v)
                    else:
                        C.undecided("the Cauchy-Riemann test sees it", "tested quantity %s" % v)

    class Any:
        """parameter arrays of any shape; quadratic function of the parameters with arbitrary coefficients per configuration"""
        def __init__(self, kind):
            self.kind = kind
            self.dt = np.complex128 if kind in ("holomorphic", "complex") else np.float64
            self.wt = np.float64 if kind == "real" else np.complex128

        def init(self, key, s):
            return {"params": {"a": sym.inp("pa", (A_,), self.dt), "m": {"b": sym.inp("pb", (B_, C_), self.dt)}}}

        def apply(self, p, s):
            a, b = p["params"]["a"], p["params"]["m"]["b"]
            wa, ua, wb = sym.inp("wa", (2, A_), self.wt), sym.inp("ua", (2, A_), self.wt), sym.inp("wb", (2, B_, C_), self.wt)
            if self.kind == "complex":
                b = jnp.conj(b)
            return jnp.sum(a * a * wa[s[0]]) + jnp.sum(a * ua[s[1]]) * jnp.sum(b * wb[s[0]])
    for kind in KINDS:
        with C.block("%s network, parameter arrays of any shape" % kind, [F_ + "__call__", F_ + "gradients", F_ + "_get_gradients", F_ + "gradients_dict", F_ + "grad_dict_to_vec_map"], limit=120):
            with H.patched((vqs, "isclose", lambda *a, **k: kind == "holomorphic")):
                cpx = kind in ("holomorphic", "complex")
                psi = vqs.NQS(Any(kind), batchSize=2, seed=1)
                s = sym.inp("s", (D, N, L), np.int32, dom=2)
                d, n, i, j, k = C.idx("d", D), C.idx("n", N), C.idx("i", A_), C.idx("j", B_), C.idx("k", C_)
                A, Cd = sym.dim_poly(A_), sym.dim_poly(C_)
                Bc = sym.dim_poly(B_) * Cd
                s0, s1 = [T.app("s", d, n, lift(q)) for q in range(2)]
                sel = lambda w, x, *ix: T.app(w, lift(0), *ix) * (1 - x) + T.app(w, lift(1), *ix) * x
                cc = T.conj if kind == "complex" else (lambda x: x)
                q, r, t = [T.var(x, int_=True, nonneg=True) for x in "qrt"]
                SA = T.mk_sum([(q, A)], T.app("pa", q) * sel("ua", s1, q))
                SB = T.mk_sum([(r, sym.dim_poly(B_)), (t, Cd)], cc(T.app("pb", r, t)) * sel("wb", s0, r, t))
                val = T.mk_sum([(q, A)], T.app("pa", q) ** 2 * sel("wa", s0, q)) + SA * SB
                v = psi(s)
                C.eq("value", v.term(d, n), val)
                g = psi.gradients(s)
                f = 2 if cpx else 1
                C.eq("number of gradient entries", sym.dim_poly(g.shape[2]), f * (A + Bc))
                C.eq("number of parameters", sym.dim_poly(g.shape[2]), sym.dim_poly(psi.get_parameters().shape[0]))
                ga, gb = 2 * T.app("pa", i) * sel("wa", s0, i) + sel("ua", s1, i) * SB, sel("wb", s0, j, k) * SA
                C.eq("derivatives with respect to the vector", g.term(d, n, i), ga)
                C.eq("derivatives with respect to the matrix", g.term(d, n, f * A + j * Cd + k), gb)
                if cpx:
                    C.eq("derivatives with respect to the imaginary part of the vector", g.term(d, n, A + i), T.IMAG * ga)
                    C.eq("derivatives with respect to the imaginary part of the matrix", g.term(d, n, 2 * A + Bc + j * Cd + k), (-1 if kind == "complex" else 1) * T.IMAG * gb)
                if not cpx:
                    gd_ = psi.gradients_dict(s)
                    C.eq("dictionary: vector", gd_["a"].term(d, n, i), ga)
                    C.eq("dictionary: matrix", gd_["m"]["b"].term(d, n, j * Cd + k), gb)
    with C.block("batched evaluation helper", ["jVMC.vqs.eval_batched"], limit=60):
        for b in (1, 2, b_):
            s = sym.inp("s", (N, L), np.int32, dom=2)
            T.declare("FF", real=True)
            r = vqs.eval_batched(b, lambda y: sym.ufun("FF", y, dtype=np.float64), s)
            n = C.idx("n", N)
            C.true("shape %s" % b, str(tuple(r.shape)) == str((N,)), detail=str(r.shape))
            C.eq("value batch %s" % b, r.term(n), T.app("FF", *[T.app("s", n, lift(j)) for j in range(L)]))
    H.DEVDIM[0] = None


def real_nets(jv):
    """the networks of the package and two own ones, small; name -> (network or tuple, local dimension, input shape, has gradient dictionary)"""
    import jax
    import jax.numpy as jnp
    import flax.linen as nn
    N = jv.nets

    class NonHolo(nn.Module):
        @nn.compact
        def __call__(self, s):
            w = self.param("w", lambda k, sh: 0.3 * (jax.random.normal(k, sh) + 1j * jax.random.normal(jax.random.split(k)[0], sh)), (3, 4))
            b = self.param("b", lambda k, sh: 0.3 * (jax.random.normal(k, sh) - 1j * jax.random.normal(jax.random.split(k)[1], sh)), (3,))
            x = jnp.dot(w, 2. * s.ravel() - 1) + b
            return jnp.sum(jnp.abs(x) ** 2) * 0.2 + 1j * jnp.sum(jnp.real(x) * jnp.imag(jnp.conj(x) * 0.4)) + jnp.sum(jnp.conj(x) * 0.1)

    class Mixed(nn.Module):
        """real parameters, complex output; several arrays, nested modules"""
        @nn.compact
        def __call__(self, s):
            x = nn.tanh(nn.Dense(3, param_dtype=jnp.float64, dtype=jnp.float64, name="z")(2. * s.ravel() - 1))
            y = nn.Dense(2, param_dtype=jnp.float64, dtype=jnp.float64, use_bias=False, name="a")(x)
            c = self.param("m", lambda k, sh: 0.3 * jax.random.normal(k, sh), (2, 2))
            return jnp.sum(y) + 1j * jnp.sum(c @ jnp.sin(y))

    class Flat(nn.Module):
        """real parameters; the gradient vanishes on the all-zero configuration"""
        @nn.compact
        def __call__(self, s):
            w = self.param("w", lambda k, sh: 0.3 * jax.random.normal(k, sh), (2, 4))
            y = jnp.dot(w, 1. * s.ravel())
            return jnp.sum(y[0] ** 2) * 0.5 + y[0] * y[1] + 1j * (y[1] - 0.2 * y[0])

    class Tiny(nn.Module):
        """complex parameters; the non-holomorphic part is very small on the all-zero configuration"""
        eps: float = 1e-9

        @nn.compact
        def __call__(self, s):
            w = self.param("w", lambda k, sh: 0.3 * (jax.random.normal(k, sh) + 1j * jax.random.normal(jax.random.split(k)[0], sh)), (4,))
            x = 2. * s.ravel() - 1
            return jnp.dot(w, x) + (jnp.sum(s) + self.eps) * jnp.sum(jnp.conj(w) * x) * 0.3

    class Half(nn.Module):
        """complex parameters; holomorphic in some of the arrays only"""
        which: int = 0

        @nn.compact
        def __call__(self, s):
            ini = lambda k, sh: 0.3 * (jax.random.normal(k, sh) + 1j * jax.random.normal(jax.random.split(k)[0], sh))
            x = 2. * s.ravel() - 1
            t = 0.2j
            for i, nm in enumerate(("a", "b", "c")):
                y = jnp.dot(self.param(nm, ini, (2, 4)), x)
                t = t + jnp.sum(y ** 2) * 0.3 + (jnp.sum(jnp.conj(y)) * 0.4 if i == self.which else 0.)
            return t

    return {
        "part holomorphic a": (Half(0), 2, (4,), False),
        "part holomorphic b": (Half(1), 2, (4,), False),
        "part holomorphic c": (Half(2), 2, (4,), False),
        "tiny": (Tiny(), 2, (4,), False),
        "nonholomorphic elsewhere": (Tiny(0.), 2, (4,), False),
        "CpxRBM": (N.CpxRBM(numHidden=2, bias=True), 2, (4,), True),
        "RBM": (N.RBM(numHidden=3, bias=True), 2, (4,), True),
        "TwoNets": ((N.RBM(numHidden=2, bias=False), N.FFN(layers=(3,), bias=True)), 2, (4,), True),
        "FFN": (N.FFN(layers=(3, 2), bias=True), 2, (4,), True),
        "nonholomorphic": (NonHolo(), 2, (4,), False),
        "mixed": (Mixed(), 2, (2, 2), True),
        "flat": (Flat(), 2, (4,), True),
    }


def battery(B):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import jVMC as jv
    from engine.world import close
    names = list(real_nets(jv))
    sizes = [(1, 1), (5, 2), (6, 3), (7, 100)] if not B.thorough else [(1, 1), (1, 4), (2, 3), (5, 2), (6, 3), (7, 3), (7, 100), (16, 5)]

    def run(name, N, b):
        rg = B.rng("C09%s%d%d" % (name, N, b))
        net, l, sh, has_dict = real_nets(jv)[name]
        s = rg.integers(0, l, (B.D, N) + sh).astype(np.int32)
        s0 = s.copy()
        if name in ("flat", "tiny", "nonholomorphic elsewhere"):
            s[0, 0] = 0
        psi = jv.vqs.NQS(net, batchSize=b, seed=3)
        v = np.asarray(psi(jnp.array(s)))
        P0 = np.array(psi.get_parameters())

        def ref(P):
            p = dict(psi.parameters)
            p["params"] = psi._param_unflatten(jnp.asarray(P))
            return np.array(jax.vmap(jax.vmap(lambda y: psi.net.apply(p, y)))(jnp.array(s)))
        close(v, ref(P0), 1e-10, "psi(s)")
        g = np.asarray(psi.gradients(jnp.array(s)))
        if g.shape != (B.D, N, P0.size):
            raise AssertionError("gradients have shape %s, parameters %s" % (g.shape, P0.shape))
        h = 1e-5
        for k in range(P0.size):
            e = np.zeros_like(P0)
            e[k] = h
            fd = (ref(P0 + e) - ref(P0 - e)) / (2 * h)
            close(g[..., k], fd, 1e-6, "derivative wrt parameter %d" % k)
        if has_dict:
            gd, ix = psi.gradients_dict(jnp.array(s)), psi.grad_dict_to_vec_map()
            jax.tree_util.tree_map(lambda x, i: close(x, g[..., np.asarray(i)], 1e-9, "gradient dictionary"), gd, ix)
            if sorted(int(i) for x in jax.tree_util.tree_leaves(ix) for i in np.asarray(x)) != list(range(P0.size)):
                raise AssertionError("grad_dict_to_vec_map does not enumerate the gradient entries")
        # values do not depend on how configurations are grouped
        psi2 = jv.vqs.NQS(net, batchSize=b + 3, seed=3)
        psi2(jnp.array(s))
        perm = rg.permutation(N)
        close(psi2(jnp.array(s[:, perm])), v[:, perm], 1e-9, "value with another batch size and order")
        close(psi2.gradients(jnp.array(s[:, perm])), g[:, perm], 1e-9, "gradient with another batch size and order")
        return P0.size

    for name in names:
        if name == "nonholomorphic elsewhere":
            B.case("network that violates the Cauchy-Riemann condition only at other configurations than the first", lambda name=name: run(name, 4, 2), net=name)
            continue
        for N, b in sizes if not name.startswith("part") else sizes[1:2]:
            B.case("%s N=%d batch=%d" % (name, N, b), lambda name=name, N=N, b=b: run(name, N, b), net=name, N=N, batch=b)
