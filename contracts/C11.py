"""C11  symmetrised wave functions: orbit = symmetry group with characters, symmetrised value = weighted sum over the orbit, invariance."""


# ---- independent description of the symmetry groups -------------------------------------------------
def gens_1d(L, which):
    """site maps of the generators: position i of the new configuration takes the value of site m[i]; sign -1 = spin flip"""
    g = {}
    if "translation" in which:
        g["translation"] = ([(i + 1) % L for i in range(L)], 1)
    if "reflection" in which:
        g["reflection"] = ([L - 1 - i for i in range(L)], 1)
    if "spinflip" in which:
        g["spinflip"] = (list(range(L)), -1)
    return g


def gens_2d(L, which):
    at = lambda x, y: (x % L) * L + (y % L)
    g = {}
    if "translation" in which:
        g["translation"] = ([at(x + 1, y) for x in range(L) for y in range(L)], 1)
        g["translation'"] = ([at(x, y + 1) for x in range(L) for y in range(L)], 1)
    if "reflection" in which:
        g["reflection"] = ([at(L - 1 - x, y) for x in range(L) for y in range(L)], 1)
        g["reflection'"] = ([at(x, L - 1 - y) for x in range(L) for y in range(L)], 1)
    if "rotation" in which:
        g["rotation"] = ([at(L - 1 - y, x) for x in range(L) for y in range(L)], 1)
    if "spinflip" in which:
        g["spinflip"] = (list(range(L * L)), -1)
    return g


def group(n, gens):
    """closure: element (site map, sign) -> word"""
    e = (tuple(range(n)), 1)
    seen, todo = {e: ()}, [e]
    while todo:
        m, s = x = todo.pop()
        for k, (h, t) in gens.items():
            y = (tuple(m[j] for j in h), s * t)
            if y not in seen:
                seen[y] = seen[x] + (k,)
                todo.append(y)
    return seen


def characters(n, gens, which, orders):
    """all consistent assignments of prefactors to the chosen symmetries (one-dimensional characters of the group);
    'rot4': rotation prefactor may be any 4th root of unity if nothing else forbids it"""
    import itertools
    import cmath
    G = group(n, gens)
    out = []
    opts = []
    for w in which:
        o = orders[w]
        opts.append([cmath.exp(2j * cmath.pi * k / o) for k in range(o)])
    for c in itertools.product(*opts):
        f = dict(zip(which, c))
        val = {x: 1 for x in G}
        for x, w in G.items():
            v = 1
            for k in w:
                v = v * f[k.rstrip("'")]
            val[x] = v
        ok = True
        for x in G:
            for k, (h, t) in gens.items():
                y = (tuple(x[0][j] for j in h), x[1] * t)
                if abs(val[y] - val[x] * f[k.rstrip("'")]) > 1e-9:
                    ok = False
                    break
            if not ok:
                break
        if ok:
            out.append((f, val))
    return G, out


def elements(orbit):
    import numpy as np
    o = np.asarray(orbit)
    res = []
    for m in o:
        if not ((np.abs(m).sum(0) == 1).all() and (np.abs(m).sum(1) == 1).all()) or len(set(m[m != 0])) != 1:
            raise AssertionError("orbit element is not a (signed) permutation: %s" % m.tolist())
        res.append((tuple(int(np.argmax(np.abs(r))) for r in m), int(m[m != 0][0])))
    return res


def subsets(names):
    import itertools
    return [c for k in range(len(names) + 1) for c in itertools.combinations(names, k)]


def symbolic(C):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import flax.linen as nn
    from engine import harness as H, terms as T, logic, sym
    from engine.terms import lift
    jv = H.load()
    import jVMC.nets.sym_wrapper as sw
    import jVMC.util.symmetries as sy
    import jVMC.vqs as vqs
    import warnings
    warnings.simplefilter("ignore")
    C.assume("the plain network is an arbitrary function of the configuration", "configurations have a signed integer type; spin flip needs two local states",
             "the value of the symmetrised network is proved for any orbit (any number of signed permutations of any number of sites, any phases); the orbits the package constructs are proved for the lattice sizes and symmetry selections listed per obligation")
    FN = ["jVMC.nets.sym_wrapper.SymNet.__call__"]
    for nm in ("NR", "NI"):
        T.declare(nm, real=True)

    class Net(nn.Module):
        @nn.compact
        def __call__(self, s):
            return sym.ufun("NR", *[s.ravel()[k] for k in range(s.size)], dtype=np.float64) + 1j * sym.ufun("NI", *[s.ravel()[k] for k in range(s.size)], dtype=np.float64)

    def amp(st):
        return T.exp(T.app("NR", *st) + T.IMAG * T.app("NI", *st))

    def act(x, st):
        m, sgn = x
        return [st[j] if sgn == 1 else 1 - st[j] for j in m]

    def pick(A, S, n):
        """documented as the average, implemented as the sum: the constant is left open"""
        c = T.inv(lift(n))
        return c if T.is_zero(A - S * c) else lift(1)
    cases = [("1D L=3 translation", (3,), 2, lambda: sy.get_orbit_1D(3, "translation")),
             ("1D L=3 translation, reflection, spinflip, sector -", (3,), 2, lambda: sy.get_orbit_1D(3, "translation", "reflection", "spinflip", reflection_factor=-1., spinflip_factor=-1.)),
             ("1D L=4 translation momentum pi", (4,), 2, lambda: sy.get_orbit_1D(4, "translation", translation_factor=-1.)),
             ("1D L=4 translation momentum pi/2", (4,), 2, lambda: sy.get_orbit_1D(4, "translation", translation_factor=1j)),
             ("1D L=3 translation, four local states", (3,), 4, lambda: sy.get_orbit_1D(3, "translation", "reflection")),
             ("2D L=2 rotation, reflection", (2, 2), 2, lambda: sy.get_orbit_2D_square(2, "rotation", "reflection", rotation_factor=-1., reflection_factor=1.)),
             ("2D L=2 everything", (2, 2), 2, lambda: sy.get_orbit_2D_square(2, "rotation", "reflection", "translation", "spinflip")),
             ("no symmetry", (2,), 2, lambda: sy.get_orbit_1D(2))]
    for name, shape, l, mk in cases:
        n = int(np.prod(shape))
        with C.block(name, FN + ["jVMC.nets.sym_wrapper.avgFun_Coefficients_Exp"], limit=120):
            orb = mk()
            els, fac = elements(orb.orbit), [lift(complex(np.round(complex(f), 12))) for f in np.asarray(orb.factor)]
            s = sym.inp("s", shape, np.int32, dom=l)
            st = [T.app("s", *[lift(int(i)) for i in ix]) for ix in np.ndindex(*shape)]
            net = sw.SymNet(net=Net(), orbit=orb)
            def S(conf):
                return sum((f * amp(act(x, conf)) for x, f in zip(els, fac)), lift(0))
            out = net.apply({}, s)
            A = T.exp(out.term())
            C.eq("value is the weighted sum (or average) over the orbit", A, S(st) * pick(A, S(st), len(els)))
            for x, f in list(zip(els, fac))[:6]:
                g = sym.from_fun(shape, np.int32, lambda *i, x=x: act(x, st)[int(np.ravel_multi_index([j.as_int() for j in i], shape))])
                C.eq("transforms with the character of element %s" % (x,), T.exp(net.apply({}, g).term()) * f, A)
    for avg in ("avgFun_Coefficients_Log", "avgFun_Coefficients_Sep"):
        for name, shape, l, mk in (cases[0], cases[4], cases[5]):
            if avg.endswith("Sep") and l == 4:
                continue
            n = int(np.prod(shape))
            with C.block("%s %s" % (avg, name), FN + ["jVMC.nets.sym_wrapper." + avg], limit=120):
                orb = mk()
                els = elements(orb.orbit)
                s = sym.inp("s", shape, np.int32, dom=l)
                st = [T.app("s", *[lift(int(i)) for i in ix]) for ix in np.ndindex(*shape)]
                net = sw.SymNet(net=Net(), orbit=orb, avgFun=getattr(sw, avg))
                out = net.apply({}, s).term()
                if avg.endswith("Log"):
                    want = sum((T.app("NR", *act(x, st)) + T.IMAG * T.app("NI", *act(x, st)) for x in els), lift(0)) * T.inv(lift(len(els)))
                    C.eq("average of the logarithms", out, want)
                else:
                    want = sum((T.exp(2 * T.app("NR", *act(x, st))) for x in els), lift(0)) * T.inv(lift(len(els)))
                    C.eq("squared modulus is the average of squared moduli", T.exp(2 * T.re(out)), want)
                for x in els[:4]:
                    g = sym.from_fun(shape, np.int32, lambda *i, x=x: act(x, st)[int(np.ravel_multi_index([j.as_int() for j in i], shape))])
                    C.eq("invariant under %s" % (x,), net.apply({}, g).term(), out)
    Gd, nd = sym.sdims("G, n")
    T.declare("pi", real=True, int_=True, nonneg=True, eval=lambda g, i: i)
    T.declare("ph", real=True)
    T.declare("z", real=True, int_=True, dom=2)
    for avg in ("avgFun_Coefficients_Exp", "avgFun_Coefficients_Log", "avgFun_Coefficients_Sep"):
        with C.block("%s: any orbit of any size, any number of sites" % avg, FN + ["jVMC.nets.sym_wrapper." + avg], limit=60):
            # element g: site i takes the value of site pi(g, i), flipped if z(g) = 1, prefactor a phase; the network looks at one arbitrary site
            q = C.idx("q", nd)
            at = sym.from_fun((), np.int32, lambda: q)

            class One(nn.Module):
                @nn.compact
                def __call__(self, s):
                    x = s.ravel()[at]
                    return sym.ufun("NR", x, dtype=np.float64) + 1j * sym.ufun("NI", x, dtype=np.float64)
            pi, z = sym.inp("pi", (Gd, nd), np.int32), sym.inp("z", (Gd,), np.int32, dom=2)
            orb = sy.LatticeSymmetry(jnp.where(pi[:, :, None] == jnp.arange(nd)[None, None, :], 1, 0) * (1 - 2 * z)[:, None, None], jnp.exp(1j * sym.inp("ph", (Gd,), np.float64)))
            s = sym.inp("s", (nd,), np.int32, dom=2)
            out = sw.SymNet(net=One(), orbit=orb, avgFun=getattr(sw, avg)).apply({}, s).term()
            g, j = T.fresh(), T.fresh()
            logic.bound_var(g, sym.dim_poly(Gd))
            logic.bound_var(j, sym.dim_poly(nd))
            sj, zg = T.app("s", j), T.app("z", g)
            x = T.mk_sum([(j, sym.dim_poly(nd))], T.eq0(T.app("pi", g, q) - j) * (sj + zg - 2 * sj * zg))
            G_ = sym.dim_poly(Gd)
            if avg.endswith("Exp"):
                S = T.mk_sum([(g, G_)], T.exp(T.IMAG * T.app("ph", g)) * T.exp(T.app("NR", x) + T.IMAG * T.app("NI", x)))
                A = T.exp(out)
                C.eq("weighted sum (or average) over the orbit", A, S * (T.inv(G_) if T.is_zero(A - S * T.inv(G_)) else lift(1)))
            elif avg.endswith("Log"):
                C.eq("average of the logarithms", out, T.mk_sum([(g, G_)], T.app("NR", x) + T.IMAG * T.app("NI", x)) * T.inv(G_))
            else:
                C.eq("squared modulus is the average of squared moduli", T.exp(2 * T.re(out)), T.mk_sum([(g, G_)], T.exp(2 * T.app("NR", x))) * T.inv(G_))
    for L in (3, 4, 5, 6):
        with C.block("prefactors of the 1D orbit, L=%d, arbitrary prefactors" % L, ["jVMC.util.symmetries.get_orbit_1D", "jVMC.util.symmetries.get_maps_1D", "jVMC.util.symmetries.get_orbits_from_maps_1D"], limit=60):
            t, f, z = [sym.inp(k, (), np.complex128, real=False) for k in ("ft", "fr", "fs")]
            T_, F_, Z_ = [T.app(k) for k in ("ft", "fr", "fs")]
            o = sy.get_orbit_1D(L, "translation", "reflection", "spinflip", translation_factor=t, reflection_factor=f, spinflip_factor=z)
            els = elements(o.orbit)
            C.true("every group element once", len(els) == 4 * L and set(els) == set(group(L, gens_1d(L, ("translation", "reflection", "spinflip")))), detail="%d elements" % len(els))
            for k, (m, sg) in enumerate(els):
                refl = (m[1] - m[0]) % L != 1
                # translation part: m[i] = i - x (mod L), with reflection m[i] = x - 1 - i; either direction of the translation may carry the prefactor
                x = (m[0] + 1) % L if refl else (-m[0]) % L
                base = (F_ if refl else lift(1)) * (Z_ if sg == -1 else lift(1))
                alt = base * T_ ** ((L - x) % L)
                want = base * T_ ** x
                got = o.factor.term(k)
                C.eq("prefactor of element %s is the product of those of its generators" % ((m, sg),), got, alt if T.is_zero(got - alt) else want)
    for which, L in ((("translation", "spinflip"), 3), (("rotation", "spinflip"), 3), (("rotation", "spinflip"), 2), (("reflection",), 3)):
        with C.block("prefactors of the 2D orbit, L=%d, %s, arbitrary prefactors" % (L, "+".join(which)), ["jVMC.util.symmetries.get_orbit_2D_square", "jVMC.util.symmetries.get_maps_2D", "jVMC.util.symmetries.get_orbits_from_maps_2D"], limit=60):
            fs = {w: sym.inp("f" + w, (), np.complex128, real=False) for w in which}
            o = sy.get_orbit_2D_square(L, *which, **{w + "_factor": v for w, v in fs.items()})
            els = elements(o.orbit)
            gens = gens_2d(L, which)
            G = group(L * L, gens)
            C.true("every group element once", len(els) == len(G) and set(els) == set(G), detail="%d elements" % len(els))
            for k, (m, sg) in enumerate(els):
                z = T.app("fspinflip") if sg == -1 else lift(1)
                if "translation" in which:
                    x, y = m[0] // L, m[0] % L
                    cand = [T.app("ftranslation") ** (((-x) % L) + ((-y) % L)), T.app("ftranslation") ** (x + y)]
                elif "rotation" in which:
                    g = gens["rotation"][0]
                    e, n_ = tuple(range(L * L)), 0
                    while e != m:
                        e, n_ = tuple(e[j] for j in g), n_ + 1
                    cand = [T.app("frotation") ** n_, T.app("frotation") ** ((4 - n_) % 4)]
                else:
                    n_ = {tuple(range(L * L)): 0, tuple(gens["reflection"][0]): 1, tuple(gens["reflection'"][0]): 1}.get(m, 2)
                    cand = [T.app("freflection") ** n_] + ([lift(1)] if n_ == 2 else [])
                got = o.factor.term(k)
                C.eq("prefactor of element %s" % ((m, sg),), got, next((c * z for c in cand if T.is_zero(got - c * z)), cand[0] * z))
    with C.block("wave function with orbit", FN + ["jVMC.vqs.NQS.__init__", "jVMC.vqs.NQS.__call__"], limit=120):
        D, N = sym.sdims("D, N")
        H.DEVDIM[0] = D
        orb = sy.get_orbit_1D(3, "translation", "spinflip", spinflip_factor=-1.)

        class PNet(nn.Module):
            @nn.compact
            def __call__(self, s):
                p = self.param("p", lambda k: jnp.ones(()))
                return sym.ufun("NR", *[s.ravel()[k] for k in range(3)], dtype=np.float64) + 1j * sym.ufun("NI", *[s.ravel()[k] for k in range(3)], dtype=np.float64) + 0. * p
        s = sym.inp("s", (D, N, 3), np.int32, dom=2)
        psi = vqs.NQS(PNet(), orbit=orb, batchSize=2)
        psi(s)
        d, n = C.idx("d", D), C.idx("n", N)
        st = [T.app("s", d, n, lift(j)) for j in range(3)]
        els, fac = elements(orb.orbit), [lift(float(f)) for f in np.asarray(orb.factor)]
        want = sum((f * amp(act(x, st)) for x, f in zip(els, fac)), lift(0))
        A = T.exp(psi(s).term(d, n))
        C.eq("weighted sum (or average) over the orbit at every position", A, want * pick(A, want, len(els)))
        H.DEVDIM[0] = None


def battery(B):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import warnings
    warnings.simplefilter("ignore")
    import jVMC as jv
    import jVMC.util.symmetries as sy
    from engine.world import close

    def orbit_case(dim, L, which):
        n = L ** dim
        gens = (gens_1d if dim == 1 else gens_2d)(L, which)
        orders = {"translation": L, "reflection": 2, "rotation": 4, "spinflip": 2}
        G, chars = characters(n, gens, which, orders)
        f_ = sy.get_orbit_1D if dim == 1 else sy.get_orbit_2D_square
        cnt = 0
        for f, val in chars if B.thorough or len(chars) <= 8 else chars[:4] + chars[-4:]:
            kw = {k + "_factor": (v.real if abs(v.imag) < 1e-12 else v) for k, v in f.items()}
            o = f_(L, *which, **kw)
            els = elements(o.orbit)
            if len(els) != len(set(els)):
                raise AssertionError("an element occurs twice in the orbit")
            if set(els) != set(G):
                raise AssertionError("orbit has %d elements, the generated group %d; %s missing" % (len(els), len(G), len(set(G) - set(els))))
            if tuple(o.shape) != (len(G), n, n) or np.asarray(o.factor).shape != (len(G),):
                raise AssertionError("shape")
            got = [complex(x) for x in np.asarray(o.factor)]
            # character either of the element or of its inverse, consistently
            inv = {x: (tuple(int(i) for i in np.argsort(x[0])), x[1]) for x in els}
            d1 = max(abs(g - val[x]) for g, x in zip(got, els))
            d2 = max(abs(g - val[inv[x]]) for g, x in zip(got, els))
            if min(d1, d2) > 1e-9:
                k = int(np.argmax([abs(g - val[x]) for g, x in zip(got, els)]))
                raise AssertionError("prefactors %s: element %s has prefactor %s, its character is %s" % (kw, els[k], got[k], val[els[k]]))
            cnt += 1
        return cnt
    names1, names2 = ("translation", "reflection", "spinflip"), ("translation", "reflection", "rotation", "spinflip")
    for L in (range(1, 7) if not B.thorough else range(1, 13)):
        for w in subsets(names1):
            B.case("orbit 1D L=%d %s" % (L, "+".join(w)), lambda L=L, w=w: orbit_case(1, L, w), L=L, symmetries=w)
    for L in ((1, 2, 3, 4) if not B.thorough else (1, 2, 3, 4, 5)):
        for w in subsets(names2):
            B.case("orbit 2D L=%d %s" % (L, "+".join(w)), lambda L=L, w=w: orbit_case(2, L, w), L=L, symmetries=w)

    def inv_case(dim, L, which, fac, avg, netname, l=2):
        rg = B.rng("C11%s%s%s%s" % (dim, L, which, netname))
        f_ = sy.get_orbit_1D if dim == 1 else sy.get_orbit_2D_square
        o = f_(L, *which, **fac)
        shape = (L,) * dim
        if netname == "CpxRBM":
            net = jv.nets.CpxRBM_Nospinflip(numHidden=3, bias=True)
        elif netname == "two":
            net = (jv.nets.FFN(layers=(3,), bias=True), jv.nets.FFN(layers=(2,), bias=True))
        else:
            net = jv.nets.FFN(layers=(3,), bias=True)
        kw = {} if avg is None else dict(avgFun=getattr(jv.nets.sym_wrapper, avg))
        psi = jv.vqs.NQS(net, orbit=o, batchSize=3, seed=5, **kw)
        plain = jv.vqs.NQS(net, batchSize=50, seed=5)
        s = rg.integers(0, l, (B.D, 4) + shape).astype(np.int32)
        v = np.asarray(psi(jnp.array(s)))
        P = 0.5 * rg.normal(size=np.asarray(psi.get_parameters()).size)
        psi.set_parameters(jnp.array(P))
        plain(jnp.array(s))
        plain.set_parameters(jnp.array(P))
        v = np.asarray(psi(jnp.array(s)))
        els = elements(o.orbit)
        chi = np.asarray(o.factor)
        ref = []
        for (m, sg), c in zip(els, chi):
            t = s.reshape(B.D, 4, -1)[:, :, list(m)]
            t = (t if sg == 1 else 1 - t).reshape(s.shape)
            ref.append(np.asarray(plain(jnp.array(t))))
            if avg in (None, "avgFun_Coefficients_Exp"):
                close(np.exp(np.asarray(psi(jnp.array(t))) - 0j) * c, np.exp(v - 0j), 1e-7, "psi(g s) chi(g) for g=%s" % (m,))
            else:
                close(np.asarray(psi(jnp.array(t))), v, 1e-7, "psi(g s) for g=%s" % (m,))
        if avg in (None, "avgFun_Coefficients_Exp"):
            r = sum(c * np.exp(x - 0j) for c, x in zip(chi, ref))
            # documented as the average, implemented as the sum: the constant is left open
            c = 1 / len(els) if np.abs(np.exp(v - 0j) - r / len(els)).max() < 1e-8 * (1 + np.abs(r).max()) else 1.
            close(np.exp(v - 0j), c * r, 1e-7, "symmetrised amplitude")
        elif avg.endswith("Log"):
            close(v, np.mean(ref, axis=0), 1e-8, "average of logarithms")
        else:
            close(np.exp(2 * v.real), np.mean(np.exp(2 * np.real(ref)), axis=0), 1e-8, "average of squared moduli")
        return len(els)
    lst = [(1, 4, ("translation", "reflection", "spinflip"), {}, None, "CpxRBM"),
           (1, 4, ("translation",), dict(translation_factor=1j), None, "CpxRBM"),
           (1, 5, ("translation",), dict(translation_factor=np.exp(2j * np.pi / 5)), None, "CpxRBM"),
           (1, 4, ("reflection", "spinflip"), dict(reflection_factor=-1., spinflip_factor=-1.), None, "two"),
           (1, 3, ("translation", "reflection"), {}, None, "real"),
           (1, 3, ("translation", "reflection"), {}, None, "CpxRBM", 4),
           (2, 2, ("translation", "rotation", "spinflip"), dict(rotation_factor=-1.), None, "CpxRBM"),
           (2, 3, ("rotation", "reflection"), dict(rotation_factor=-1., reflection_factor=-1.), None, "CpxRBM"),
           (2, 3, ("translation", "rotation", "reflection"), {}, "avgFun_Coefficients_Log", "CpxRBM"),
           (1, 4, ("translation", "spinflip"), {}, "avgFun_Coefficients_Sep", "two"),
           (1, 4, ("translation", "reflection"), {}, "avgFun_Coefficients_Log", "real")]
    for k, a in enumerate(lst):
        B.case("invariance %d" % k, lambda a=a: inv_case(*a), args=a)
