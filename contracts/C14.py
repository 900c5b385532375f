"""C14  POVMOperator acts as the sum of its registered terms, whatever their order, sizes, sites and history."""


def symbolic(C):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import types
    from engine import harness as H, terms as T, logic, sym
    from engine.terms import lift, ONE, ZERO
    jv = H.load()
    import jVMC.operator as op
    C.assume("operator tables, strengths and configurations are symbolic; number of sites <= 4 and term lists as named per obligation",
             "each term's sites are distinct")
    FN = ["jVMC.operator.povm.POVMOperator." + x for x in ("add", "compile", "_get_s_primes")]
    T.declare("phi", real=False)

    def table(name, n):
        # (a symbolic array belongs to the block that made it)
        T.declare("OM" + name, real=True)
        return sym.from_fun((4 ** n, 4 ** n), np.float64, lambda a, b, name=name: T.app("OM" + name, a, b))

    def strength(k):
        T.declare("g%d" % k, real=True)
        return sym.inp("g%d" % k, (), np.float64), T.app("g%d" % k)

    def spec(terms, s, shape_n):
        tot = ZERO
        for name, n, sites, g in terms:
            for b in np.ndindex(*(4,) * n):
                # sum over the current local state to stay within finite tables
                for a in np.ndindex(*(4,) * n):
                    w = ONE
                    for i, x in zip(sites, a):
                        w = w * T.eq0(s[i] - x)
                    if w.is_zero():
                        continue
                    ia = ib = 0
                    for x, y in zip(a, b):
                        ia, ib = 4 * ia + x, 4 * ib + y
                    t = list(s)
                    for i, y in zip(sites, b):
                        t[i] = lift(int(y))
                    tot = tot + w * g * T.app("OM" + name, lift(ia), lift(ib)) * T.app("phi", *t)
        return tot

    def act(h, s, shape, n):
        f = h.compile()
        f = f[0] if isinstance(f, tuple) else f
        sp, me = f(s.reshape(shape) if shape != (n,) else s)
        k = int(me.shape[0])
        C.true("shapes", tuple(sp.shape) == (k,) + tuple(shape), detail="%s %s" % (sp.shape, me.shape))
        sp = sp.reshape((k, n))
        tot = ZERO
        for j in range(k):
            m = me.term(j)
            if m.is_zero():
                continue
            tot = tot + m * T.app("phi", *[sp.term(j, i) for i in range(n)])
        return tot
    lists = {
        "one site": (2, (2,), [("A", (0,))]),
        "sites in any order": (3, (3,), [("A", (2,)), ("B", (0,)), ("A", (1,))]),
        "same site, several terms": (2, (2,), [("A", (1,)), ("B", (1,)), ("A", (1,)), ("B", (0,))]),
        "two-body": (2, (2,), [("P", (0, 1))]),
        "two-body, reversed sites": (2, (2,), [("P", (1, 0)), ("P", (0, 1))]),
        "two-body and one-body on its first site": (2, (2,), [("A", (0,)), ("P", (0, 1))]),
        "two-body and one-body on its second site": (2, (2,), [("P", (0, 1)), ("A", (1,))]),
        "chain, several two-body terms from one site": (3, (3,), [("P", (0, 1)), ("A", (0,)), ("P", (0, 2)), ("Q", (0, 1)), ("B", (0,)), ("P", (2, 0)), ("A", (2,))]),
        "one-body on the last site, wrapping padding": (3, (3,), [("P", (1, 2)), ("A", (2,)), ("B", (0,))]),
        "three-body terms in different site orders": (3, (3,), [("T", (0, 1, 2)), ("U", (0, 2, 1)), ("T", (1, 2, 0))]),
        "three-body with two-body and one-body on its first sites": (3, (3,), [("A", (0,)), ("T", (0, 1, 2)), ("P", (0, 1)), ("P", (0, 2)), ("Q", (1, 0)), ("P", (0, 1))]),
        "one- to three-body on four sites, padding": (4, (4,), [("A", (3,)), ("T", (3, 0, 1)), ("P", (2, 3)), ("P", (3, 1)), ("B", (2,))]),
        "two-dimensional lattice": (4, (2, 2), [("P", (0, 3)), ("A", (2,)), ("A", (1,))]),
    }
    for name, (n, shape, terms) in lists.items():
        with C.block(name, FN, limit=150):
            povm = types.SimpleNamespace(operators={})
            h = op.POVMOperator(povm)
            sp = []
            for k, (nm, sites) in enumerate(terms):
                povm.operators[nm] = table(nm, len(sites))
                g, gt = strength(k)
                h.add({"name": nm, "strength": g, "sites": sites})
                sp.append((nm, len(sites), sites, gt))
            # the configuration is arbitrary: one obligation per configuration of the sites that terms touch, others symbolic
            free = [i for i in range(n)]
            big = max(len(x[1]) for x in terms) > 2
            fix = free[:2 + n - 3] if big else free[:1] if n > 2 else []
            for vals in (list(np.ndindex(*(4,) * len(fix))) if not big else [(1, 2, 3)[:len(fix)], (0, 3, 1)[:len(fix)], (3, 0, 0)[:len(fix)]]):
                T.declare("s", int_=True, dom=4)
                st = [lift(int(vals[fix.index(i)])) if i in fix else T.app("s", lift(i)) for i in range(n)]
                s = sym.from_fun((n,), np.int32, lambda i, st=st: st[i.as_int()])
                C.eq("sum of all terms %s" % (vals,), act(h, s, shape, n), spec(sp, st, n))
    # ---- chains of any length beyond the sites of the terms: those sites are left alone (the sum over the terms then follows for any length)
    for name in ("one site", "sites in any order", "same site, several terms", "two-body, reversed sites", "chain, several two-body terms from one site", "one-body on the last site, wrapping padding",
                 "three-body terms in different site orders"):
        n, shape, terms = lists[name]
        with C.block("chains of any length: " + name, FN, limit=100):
            NN, LL = sym.sdims("N, N+%d" % n)
            povm = types.SimpleNamespace(operators={})
            h = op.POVMOperator(povm)
            sp = []
            for k, (nm, sites) in enumerate(terms):
                povm.operators[nm] = table(nm, len(sites))
                g, gt = strength(k)
                h.add({"name": nm, "strength": g, "sites": sites})
                sp.append((nm, len(sites), sites, gt))
            T.declare("s", int_=True, dom=4)
            f = h.compile()
            f = f[0] if isinstance(f, tuple) else f
            s = sym.inp("s", (LL,), np.int32, dom=4)
            out, me = f(s)
            k = int(me.shape[0])
            C.true("shapes", tuple(out.shape) == (k, LL), detail="%s %s" % (out.shape, me.shape))
            i = C.idx("i", NN)
            tot, rest = ZERO, []
            for j in range(k):
                m = me.term(j)
                if m.is_zero():
                    continue
                rest.append(out.term(j, i + n) - T.app("s", i + n))
                if len(terms[0][1]) < 3:
                    tot = tot + m * T.app("phi", *[out.term(j, lift(q)) for q in range(n)])
            wt = ZERO
            for j, d in enumerate(rest):
                T.declare("wt", real=True)
                wt = wt + T.app("wt", lift(j)) * d
            C.eq("all other sites unchanged in every connected configuration", wt, ZERO)
            if len(terms[0][1]) < 3 and n < 3:
                st = [T.app("s", lift(q)) for q in range(n)]
                C.eq("sum of all terms", tot, spec(sp, st, n))
    with C.block("history: terms added after use, descriptions shared between operators", FN, limit=100):
        povm = types.SimpleNamespace(operators={"A": table("A", 1), "B": table("B", 1), "P": table("P", 2)})
        T.declare("s", int_=True, dom=4)
        n = 3
        st = [lift(1), T.app("s", lift(1)), lift(2)]
        s = sym.from_fun((n,), np.int32, lambda i: st[i.as_int()])
        (g0, t0), (g1, t1), (g2, t2) = [strength(k) for k in range(3)]
        d1 = {"name": "P", "strength": g1, "sites": (0, 2)}
        h1 = op.POVMOperator(povm)
        h1.add({"name": "P", "strength": g0, "sites": (0, 1)})
        C.eq("first term", act(h1, s, (n,), n), spec([("P", 2, (0, 1), t0)], st, n))
        h1.add(d1)
        h2 = op.POVMOperator(povm)
        h2.add(d1)
        C.eq("operator sharing a description", act(h2, s, (n,), n), spec([("P", 2, (0, 2), t1)], st, n))
        C.eq("term added after use, description shared with another operator", act(h1, s, (n,), n), spec([("P", 2, (0, 1), t0), ("P", 2, (0, 2), t1)], st, n))
        h1.add({"name": "A", "strength": g2, "sites": (1,)})
        C.eq("another term added after use", act(h1, s, (n,), n), spec([("P", 2, (0, 1), t0), ("P", 2, (0, 2), t1), ("A", 1, (1,), t2)], st, n))


def battery(B):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import itertools
    import jVMC as jv
    import jVMC.operator as op
    from engine.world import close

    def dense(povm, terms, n):
        """full 4^n x 4^n generator"""
        O = np.zeros((4 ** n, 4 ** n))
        conf = list(itertools.product(range(4), repeat=n))
        ix = {c: k for k, c in enumerate(conf)}
        for name, g, sites in terms:
            m = np.asarray(povm.operators[name])
            for c in conf:
                a = 0
                for i in sites:
                    a = 4 * a + c[i]
                for b in itertools.product(range(4), repeat=len(sites)):
                    t = list(c)
                    q = 0
                    for i, x in zip(sites, b):
                        t[i] = x
                        q = 4 * q + x
                    O[ix[c], ix[tuple(t)]] += g * m[a, q]
        return O, conf, ix

    def got(h, n, shape, conf, ix):
        O = np.zeros((len(conf), len(conf)))
        k = -(-len(conf) // B.D)
        S = np.array(conf + [conf[0]] * (k * B.D - len(conf)), dtype=np.int32).reshape((B.D, k) + shape)
        h.compile()
        sp, me = h.get_s_primes(jnp.array(S))
        sp, me = np.asarray(sp), np.asarray(me)
        # connected configurations are returned per sample
        me = me.reshape(B.D, k, -1)
        sp = sp.reshape(B.D, k, me.shape[-1], n)
        for d in range(B.D):
            for j in range(k):
                r = d * k + j
                if r >= len(conf):
                    continue
                for q in range(me.shape[-1]):
                    if me[d, j, q] != 0:
                        O[r, ix[tuple(int(x) for x in sp[d, j, q])]] += me[d, j, q].real
        return O

    def rand_terms(rg, n, names, m):
        out = []
        for _ in range(m):
            nm = names[rg.integers(len(names))]
            body = {"X": 1, "Y": 1, "Z": 1, "dephasing": 1, "decayup": 1, "decaydown": 1, "XX": 2, "ZZ": 2, "R2": 2, "R1": 1, "R3": 3}[nm]
            if body > n:
                continue
            out.append((nm, float(np.round(rg.normal(), 3)), tuple(int(x) for x in rg.permutation(n)[:body])))
        return out

    def run(k):
        rg = B.rng("C14%d" % k)
        n = int(rg.integers(1, 4))
        shape = (n,)
        povm = op.POVM({"dim": "1D", "L": n})
        povm.add_unitary("R1", jnp.array(rg.normal(size=(4, 4))))
        povm.add_dissipator("R2", jnp.array(rg.normal(size=(16, 16))))
        names = ["X", "Z", "dephasing", "decayup", "XX", "R1", "R2", "R2"]
        if k % 4 == 3:
            povm.add_unitary("R3", jnp.array(rg.normal(size=(64, 64))))
            names.append("R3")
            n, shape = 3, (3,)
        terms = rand_terms(rg, n, names, int(rg.integers(2, 8))) or [("X", 1., (0,))]
        h = op.POVMOperator(povm)
        for nm, g, sites in terms:
            h.add({"name": nm, "strength": g, "sites": sites})
        O, conf, ix = dense(povm, terms, n)
        # lattice may be larger than the highest site used
        close(got(h, n, shape, conf, ix), O, 1e-9, "operator for terms %s" % (terms,))
        more = rand_terms(rg, n, names, 2)
        for nm, g, sites in more:
            h.add({"name": nm, "strength": g, "sites": sites})
        if more:
            O, conf, ix = dense(povm, terms + more, n)
            close(got(h, n, shape, conf, ix), O, 1e-9, "operator after adding %s to %s" % (more, terms))
        return len(terms)
    for k in range(8 if not B.thorough else 24):
        B.case("random terms %d" % k, lambda k=k: run(k), k=k)

    def shared():
        povm = op.POVM({"dim": "1D", "L": 3})
        d = {"name": "ZZ", "strength": 0.7, "sites": (0, 2)}
        h1, h2 = op.POVMOperator(povm), op.POVMOperator(povm)
        h1.add({"name": "XX", "strength": 0.3, "sites": (0, 1)})
        h1.add(d)
        h2.add(d)
        for h, t in ((h1, [("XX", 0.3, (0, 1)), ("ZZ", 0.7, (0, 2))]), (h2, [("ZZ", 0.7, (0, 2))])):
            O, conf, ix = dense(povm, t, 3)
            close(got(h, 3, (3,), conf, ix), O, 1e-9, "operators sharing a term description")
    B.case("shared description", shared)

    def three():
        rg = B.rng("C14three")
        povm = op.POVM({"dim": "1D", "L": 3})
        for nm, m in (("T", 64), ("U", 64), ("P", 16)):
            povm.add_unitary(nm, jnp.array(rg.normal(size=(m, m))))
        for t in ([("T", 1., (0, 1, 2)), ("U", 0.5, (0, 2, 1)), ("T", 0.3, (2, 0, 1))],
                  [("P", 1., (0, 2)), ("T", 1., (0, 1, 2)), ("P", 0.7, (0, 1)), ("X", 0.4, (0,)), ("P", 0.2, (1, 0)), ("P", 0.9, (0, 1))]):
            h = op.POVMOperator(povm)
            for nm, g, s in t:
                h.add({"name": nm, "strength": g, "sites": s})
            O, conf, ix = dense(povm, t, 3)
            close(got(h, 3, (3,), conf, ix), O, 1e-9, "operator with three-body terms %s" % (t,))
    B.case("three-body terms", three)

    def lat2d():
        povm = op.POVM({"dim": "2D", "L": 2})
        t = [("XX", 0.4, (0, 3)), ("Z", -1., (2,)), ("decayup", 0.5, (1,))]
        h = op.POVMOperator(povm)
        for nm, g, s in t:
            h.add({"name": nm, "strength": g, "sites": s})
        O, conf, ix = dense(povm, t, 4)
        close(got(h, 4, (2, 2), conf, ix), O, 1e-9, "operator on a two-dimensional lattice")
    B.case("two-dimensional lattice", lat2d)
