"""C19  measurements, ground-state search and network set-up from a description."""
import numpy as np


def symbolic(C):
    import jax
    import jax.numpy as jnp
    import warnings
    from engine import harness as H, terms as T, logic, sym
    from engine.terms import lift, ONE, ZERO
    jv = H.load()
    mpi = jv.mpi_wrapper
    from jVMC.util import util as U
    import jVMC.nets as nets
    C.assume("global mean and variance: contracts of C02 (functions of all data and all weights)",
             "operators: get_O_loc(samples, psi, logPsi, *args) is a function of its arguments (C08)",
             "ground_state_search: the search equation is a function of parameters and call number; at most four steps per obligation, step size and shift symbolic",
             "init_net: activation functions uninterpreted, parameters and configurations symbolic, network sizes fixed per obligation")

    # ------------------------------------------------------------------ measure
    D, N = sym.sdims("D, N")
    for num in (None, 17):
        with C.block("measure numSamples=%s" % num, ["jVMC.util.util.measure", "jVMC.util.util.get_iterable"], limit=120):
            T.declare("w", real=True, nonneg=True)
            T.declare("NS", real=True, pos=True)
            T.declare("Olc", real=False)
            cfg, lp, w = sym.inp("cf", (D, N, 2), np.int32, int_=True), sym.inp("lp", (D, N), np.complex128), sym.inp("w", (D, N), np.float64)
            ns = sym.inp("NS", (), np.float64)
            psi = object()
            calls, asked = [], []

            class Sm:
                def sample(self, parameters=None, numSamples=None, **k):
                    asked.append(numSamples)
                    return cfg, lp, w

                def get_last_number_of_samples(self):
                    return ns

            class Op:
                def __init__(self, q):
                    self.q = q

                def get_O_loc(self, *a):
                    calls.append((self.q, a))
                    q, ar = self.q, sum((lift(x) * 10**k for k, x in enumerate(a[3:])), ZERO)
                    return sym.from_fun((D, N), np.complex128, lambda d, k: T.app("Olc", lift(q), ar, d, k))
            for nm in ("MEAN", "VAR"):
                T.declare(nm, real=nm == "VAR", nonneg=(nm == "VAR"))
            rec = []

            def red(nm):
                def f(x, pw=None):
                    dd, kk = C.idx("d", D), C.idx("k", N)
                    t = x.term(dd, kk, ZERO)
                    for q in range(4):
                        for ar in (0, 7, 43):
                            if T.is_zero(t - T.app("Olc", lift(q), lift(ar), dd, kk)):
                                rec.append(pw)
                                return sym.from_fun((1,), np.complex128 if nm == "MEAN" else np.float64, lambda i, q=q, ar=ar: T.app(nm, lift(q), lift(ar)))
                    raise sym.Unsupported("reduction of other data")
                return f
            obs = {"b": [Op(0), (Op(1), 7), Op(2)], "a": Op(3), "c": [(Op(0), 3, 4)]}
            keep = {k: v for k, v in obs.items()}
            with H.patched((mpi, "global_mean", red("MEAN")), (mpi, "global_variance", red("VAR"))):
                res = U.measure(obs, psi, Sm(), **({} if num is None else dict(numSamples=num)))
            C.true("one set of samples for all operators, of the requested size", asked == [num], detail=str(asked))
            C.struct("every operator evaluated on the samples with its arguments", sorted((q, tuple(a[3:])) for q, a in calls) == [(0, ()), (0, (3, 4)), (1, (7,)), (2, ()), (3, ())], detail=str([(q, a[3:]) for q, a in calls]))
            C.struct("samples, state and amplitudes passed on", all(a[0] is cfg and a[1] is psi and a[2] is lp for q, a in calls))
            C.struct("weighted", len(rec) > 0 and all(pw is w for pw in rec))
            C.true("same names", set(res) == {"a", "b", "c"} and set(obs) == set(keep), detail=str(sorted(res)))
            for nm, lst in (("b", ((0, 0), (1, 7), (2, 0))), ("a", ((3, 0),)), ("c", ((0, 43),))):
                for what in ("mean", "variance", "MC_error"):
                    C.true("%s %s: one entry per operator" % (nm, what), tuple(res[nm][what].shape) == (len(lst),), detail=str(res[nm][what].shape))
                for k, (q, ar) in enumerate(lst):
                    M, V = T.app("MEAN", lift(q), lift(ar)), T.app("VAR", lift(q), lift(ar))
                    C.eq("%s mean %d" % (nm, k), res[nm]["mean"].term(k), T.re(M))
                    C.eq("%s variance %d" % (nm, k), res[nm]["variance"].term(k), V)
                    C.eq("%s error %d" % (nm, k), res[nm]["MC_error"].term(k), T.sqrt(V) * T.inv(T.sqrt(T.app("NS"))))

    # ------------------------------------------------------------------ ground state search
    h, rho = T.var("h", pos=True), T.var("rho", pos=True)
    sc = lambda v: sym.from_fun((), np.float64, lambda: v)
    T.declare("G", real=True)
    K = 2

    def search(variances, numSteps, shift, obs, out):
        """returns (log of events, psi, tdvp)"""
        log = []

        class Psi:
            def __init__(self):
                self.p = sym.inp("p0", (K,), np.float64)

            def get_parameters(self):
                return self.p

            def set_parameters(self, p):
                self.p = p
                log.append(("set", p))

        class Eq:
            n = 0

            def __call__(self, y, t, *, psi, hamiltonian, intStep=None, numSamples=None, outp=None, **kw):
                self.n += 1
                log.append(("eq", y, t, psi, hamiltonian, numSamples, outp, self.diagonalShift if shift else None))
                a = sym.get_arr(y)
                n = self.n
                return sym.from_fun((K,), np.float64, lambda i: T.app("G", lift(n), i, *[a.at(lift(j)) for j in range(K)]))

            def get_energy_variance(self):
                return variances[self.n - 1]

            def get_energy_mean(self):
                return 1.5

        class EqS(Eq):
            def __init__(self):
                self.diagonalShift = sc(rho)

            def set_diagonal_shift(self, d):
                self.diagonalShift = d

        class Out:
            def write_observables(self, n, **k):
                log.append(("write", n, k))

            def print(self, s):
                log.append(("print", s))

            def print_timings(self, indent=""):
                pass

            def __getattr__(self, k):
                return lambda *a, **kw: None
        psi, eq, o = Psi(), EqS() if shift else Eq(), Out() if out else None

        def meas(observables, psi_, sampler, numSamples=None):
            log.append(("measure", psi_.p))
            return {"o": {"mean": psi_.p}}
        with H.patched((U, "measure", meas)):
            U.ground_state_search(psi, "ham", eq, "sampler", numSteps=numSteps, varianceTol=1e-3, stepSize=sc(h), observables="obs" if obs else None, outp=o)
        return log, psi, eq, o

    for numSteps in (0, 1, 2, 4):
        for stop in range(1, numSteps + 2):
            var = [0.5] * 9
            if stop <= numSteps:
                var[stop - 1] = 1e-3 if stop % 2 else 1e-5
            want = min(stop, numSteps)
            for shift, obs, out in ((True, True, True), (False, False, True), (True, False, False)):
                with C.block("search numSteps=%d converged at %d shift=%d obs=%d outp=%d" % (numSteps, stop, shift, obs, out), ["jVMC.util.util.ground_state_search", "jVMC.util.stepper.Euler.step"], limit=60):
                    log, psi, eq, o = search(var, numSteps, shift, obs, out)
                    C.true("stops after the requested number of steps or when the variance is small", eq.n == want, detail="%d steps" % eq.n)
                    p = [T.app("p0", lift(i)) for i in range(K)]
                    hist = [list(p)]
                    for n in range(1, want + 1):
                        p = [p[i] + h * T.app("G", lift(n), lift(i), *p) for i in range(K)]
                        hist.append(list(p))
                    for i in range(K):
                        C.eq("final parameters: Euler steps along the update [%d]" % i, psi.p.term(i), p[i])
                    ev = [x for x in log if x[0] == "eq"]
                    for n, x in enumerate(ev[:want]):
                        for i in range(K):
                            C.eq("step %d starts from the parameters of the step before [%d]" % (n + 1, i), x[1].term(i), hist[n][i])
                        C.true("step %d: state and Hamiltonian passed on" % (n + 1), x[3] is psi and x[4] == "ham" and x[5] is None and x[6] is o)
                        if shift:
                            C.eq("step %d: diagonal shift" % (n + 1), x[7].term(), rho * lift(T.Q(19, 20))**n if n else rho)
                    if out and obs:
                        wr = [x for x in log if x[0] == "write"]
                        C.true("observables recorded for the initial state and after every step", [x[1] for x in wr] == list(range(want + 1)), detail=str([x[1] for x in wr]))
                        for n, x in enumerate(wr[:want + 1]):
                            for i in range(K):
                                C.eq("record %d belongs to the parameters after %d steps [%d]" % (n, n, i), x[2]["o"]["mean"].term(i), hist[n][i])

    # ------------------------------------------------------------------ init_net
    def ufn(name):
        T.declare(name, real=True)

        def f(x):
            return sym.ufun(name, x, dtype=np.float64) if x.ndim == 0 else jax.vmap(f)(x)
        return f
    T.declare("s", int_=True, dom=2)
    import copy
    FF = lambda l, a: dict(type="FFN", parameters=dict(layers=l, bias=True, actFun=a))
    cases = [("chain", (3,), dict(net1=FF((2,), ["tanh"])), ()),
             ("chain, translation", (2,), dict(net1=FF((1,), ["tanh"]), translation=True), ("translation",)),
             ("chain, reflection and spin flip", (2,), dict(net1=FF((1,), ["tanh", "square"]), reflection=True, spinflip=True, spinflip_factor=-1), ("reflection", "spinflip")),
             ("two networks", (3,), dict(net1=FF((2,), ["tanh"]), net2=FF((1,), ["elu", "square"])), ()),
             ("two networks, translation", (2,), dict(net1=FF((1,), ["tanh"]), net2=FF((2,), ["elu"]), translation=True, translation_factor=-1), ("translation",)),
             ("square lattice", (2, 2), dict(net1=FF((1,), ["square"]), reflection=True), ("reflection",))]
    for nm, dims, descr, syms in cases:
        with C.block("init_net " + nm, ["jVMC.util.util.init_net", "jVMC.nets.ffn.FFN.__call__", "jVMC.nets.sym_wrapper.SymNet.__call__"], limit=120), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            descr = dict(descr, batch_size=10)
            before = copy.deepcopy(descr)
            psi = U.init_net(descr, dims, seed=3)
            C.true("description unchanged", repr(descr) == repr(before), detail=repr(descr)[:200])
            C.true("batch size", psi.batchSize == 10)
            cnt = [0]

            def one(x):
                cnt[0] += 1
                T.declare("w%d" % cnt[0], real=True)
                return sym.inp("w%d" % cnt[0], x.shape, x.dtype)
            p = jax.tree_util.tree_map(one, psi.parameters)
            n = int(np.prod(dims))
            x = sym.from_fun(dims, np.int32, lambda *i: T.app("s", *i))
            out = psi.net.apply(p, x).term()
            # specification
            fac = {k + "_factor": descr.get(k + "_factor", 1) for k in syms}
            orb = (jv.util.symmetries.get_orbit_1D if len(dims) == 1 else jv.util.symmetries.get_orbit_2D_square)(dims[0], *syms, **fac)
            O, fc = np.asarray(orb.orbit), np.asarray(orb.factor)
            q = p["params"]["net"]
            st = [2 * T.app("s", *map(lift, k)) - 1 for k in np.ndindex(*dims)]

            def ffn(par, d, v):
                ly, ac = tuple(d["parameters"]["layers"]) + (1,), d["parameters"]["actFun"]
                for k, w in enumerate(ly):
                    W, b = par["Dense_%d" % k]["kernel"], par["Dense_%d" % k]["bias"]
                    u = [sum((W.term(i, o) * v[i] for i in range(len(v))), b.term(o)) for o in range(w)]
                    v = [fun(ac[min(k, len(ac) - 1)], y) for y in u]
                return v[0]

            def fun(name, t):
                if name == "elu":
                    a = jv.nets.activation_functions.nn.elu(sym.from_fun((), np.float64, lambda: t))
                    return a.term()
                if name == "tanh":
                    return jnp.tanh(sym.from_fun((), np.float64, lambda: t)).term()
                return t * t
            tot = ZERO
            for g, f in zip(O, fc):
                v = [sum((int(g[i, j]) * st[j] for j in range(n) if g[i, j]), ZERO) for i in range(n)]
                if "net2" in descr:
                    t = ffn(q["nets_0"], descr["net1"], v) + T.IMAG * ffn(q["nets_1"], descr["net2"], v)
                else:
                    t = ffn(q, descr["net1"], v)
                tot = tot + lift(complex(f) if np.imag(f) else float(np.real(f))) * T.exp(t)
            if "net2" in descr or not any(np.real(fc) < 0):
                C.eq("exp(log psi) = sum over the symmetry operations of prefactor * exp(net)", T.exp(out), tot)


def battery(B):
    import jax
    import jax.numpy as jnp
    import copy
    import warnings
    import jVMC as jv
    import jVMC.operator as op
    from engine.world import close
    from jVMC.util import util as U
    L = 4

    def net(seed=4, cls=None):
        psi = jv.vqs.NQS(cls or jv.nets.CpxRBM(numHidden=3, bias=True), batchSize=7, seed=seed)
        psi(jnp.zeros((B.D, 1, L), dtype=np.int32))
        rg = np.random.default_rng(seed)
        p = np.asarray(psi.get_parameters())
        psi.set_parameters(jnp.array(p + 0.5 * rg.normal(size=p.size)))
        return psi

    def tfi(g=0.7):
        H = op.BranchFreeOperator()
        for i in range(L):
            H.add(op.scal_opstr(-1., (op.Sz(i), op.Sz((i + 1) % L))))
            H.add(op.scal_opstr(g, (op.Sx(i),)))
        return H

    def single(ops):
        O = op.BranchFreeOperator()
        O.add(op.scal_opstr(1., ops))
        return O

    def basis():
        return np.array([[(k >> (L - 1 - i)) & 1 for i in range(L)] for k in range(2**L)])

    def dense(M):
        """M: list of (coefficient, {site: 2x2 matrix})"""
        H = np.zeros((2**L, 2**L), dtype=complex)
        for c, d in M:
            m = np.eye(1)
            for i in range(L):
                m = np.kron(m, d.get(i, np.eye(2)))
            H = H + c * m
        return H
    Z, X = np.diag([-1., 1.]), np.array([[0., 1.], [1., 0.]])

    def measure_exact():
        psi = net()
        S = basis()
        m = -(-len(S) // B.D)
        T_ = np.concatenate([S, np.repeat(S[:1], m * B.D - len(S), 0)]).reshape((B.D, m, L))
        c = np.exp(np.asarray(psi(jnp.array(T_))).reshape(-1)[:len(S)])
        c = c / np.linalg.norm(c)
        smp = jv.sampler.ExactSampler(psi, (L,))
        P0 = np.asarray(psi.get_parameters())
        obs = {"energy": tfi(), "list": [single((op.Sx(0),)), single((op.Sz(1), op.Sz(3)))], "z": [single((op.Sz(i),)) for i in range(L)]}
        r = U.measure(obs, psi, smp)
        close(psi.get_parameters(), P0, 0, "parameters after measuring")
        ref = {"energy": [dense([(-1., {i: Z, (i + 1) % L: Z}) for i in range(L)] + [(0.7, {i: X}) for i in range(L)])],
               "list": [dense([(1., {0: X})]), dense([(1., {1: Z, 3: Z})])], "z": [dense([(1., {i: Z})]) for i in range(L)]}
        if set(r) != set(ref):
            raise AssertionError("results for %s" % sorted(r))
        for k, ms in ref.items():
            for n, M in enumerate(ms):
                e = np.real(c.conj() @ M @ c)
                v = np.linalg.norm(M @ c)**2 - e**2
                close(np.asarray(r[k]["mean"])[n], e, 1e-9, "%s mean %d" % (k, n))
                close(np.asarray(r[k]["variance"])[n], v, 1e-8, "%s variance %d" % (k, n))
                if not all(np.isrealobj(np.asarray(r[k][x])) for x in ("mean", "variance", "MC_error")):
                    raise AssertionError("%s: expectation value, variance or error is not real" % k)
            for w in ("mean", "variance", "MC_error"):
                if np.asarray(r[k][w]).shape != (len(ms),):
                    raise AssertionError("%s %s has shape %s" % (k, w, np.asarray(r[k][w]).shape))
    B.case("measure: exact expectation values", measure_exact)

    def measure_samples(weighted):
        """arbitrary samples and weights, operators with arguments"""
        psi = net(6)
        N = 5
        rg = B.rng("C19m")
        al = rg.integers(0, 2, size=(B.size, B.D, N, L))
        w = rg.random((B.size, B.D, N)) + 0.1
        if not weighted:
            w[:] = 1
        w /= w.sum()
        cfg = jnp.array(al[B.rank])
        cnt = []
        number = 1000

        class Sm:
            def sample(self, parameters=None, numSamples=None, multipleOf=1):
                cnt.append(numSamples)
                return cfg, psi(cfg), jnp.array(w[B.rank])

            def get_last_number_of_samples(self):
                return number

        class Op:
            def __init__(self, a):
                self.a = a

            def val(self, s, lp, *args):
                return np.asarray(s).reshape(s.shape[:2] + (-1,)) @ np.arange(1, L + 1) * self.a + np.asarray(lp) * 0.3j + sum((k + 2) * a for k, a in enumerate(args))

            def get_O_loc(self, s, psi_, lp=None, *args):
                if psi_ is not psi or s.shape != cfg.shape:
                    raise AssertionError("operator called with other samples or another state")
                return jnp.array(self.val(s, lp, *args))
        ops = {"x": [Op(1.), (Op(2.), 3.), Op(-1j)], "single": Op(0.5), "args": [(Op(1.), 1., 4.)]}
        r = U.measure(ops, psi, Sm(), numSamples=33)
        if cnt != [33]:
            raise AssertionError("sampler called with numSamples %s" % cnt)
        # numbers of all processes
        full = [np.asarray(psi(jnp.array(al[q]))) for q in range(B.size)]
        W = w.reshape(-1)
        for k, lst in (("x", [(Op(1.), ()), (Op(2.), (3.,)), (Op(-1j), ())]), ("single", [(Op(.5), ())]), ("args", [(Op(1.), (1., 4.))])):
            for n, (o, a) in enumerate(lst):
                x = np.concatenate([o.val(al[q], full[q], *a).reshape(-1) for q in range(B.size)])
                m = (W * x).sum()
                v = (W * abs(x - m)**2).sum()
                close(np.asarray(r[k]["mean"])[n], m.real, 1e-9, "%s mean %d" % (k, n))
                close(np.asarray(r[k]["variance"])[n], v, 1e-9, "%s variance %d" % (k, n))
                close(np.asarray(r[k]["MC_error"])[n], np.sqrt(v / number), 1e-9, "%s error %d" % (k, n))
    for wt in (False, True):
        B.case("measure: given samples weighted=%s" % wt, lambda wt=wt: measure_samples(wt))

    def measure_time():
        """time dependent operator: arguments reach the prefactors"""
        psi = net(9)
        smp = jv.sampler.ExactSampler(psi, (L,))
        O = op.BranchFreeOperator()
        f = lambda t: 2. + t
        O.add(op.scal_opstr(f, (op.Sz(2),)))
        r = U.measure({"t": [(O, 0.5), (O, 3.)], "z": [single((op.Sz(2),))]}, psi, smp)
        z = float(np.asarray(r["z"]["mean"])[0])
        close(np.asarray(r["t"]["mean"]), [2.5 * z, 5. * z], 1e-9, "time dependent operator")
    B.case("measure: operators with arguments", measure_time)

    def measure_err():
        psi = net(8)
        smp = jv.sampler.MCSampler(psi, (L,), jax.random.PRNGKey(4), updateProposer=jv.sampler.propose_spin_flip, numChains=5, sweepSteps=4, numSamples=60, thermalizationSweeps=2)
        for num in (None, 140, 60):
            r = U.measure({"z": single((op.Sz(1),))}, psi, smp, numSamples=num)
            n = smp.get_last_number_of_samples()
            if n < (num or 60):
                raise AssertionError("%d samples instead of %d" % (n, num))
            close(np.asarray(r["z"]["MC_error"])[0], np.sqrt(np.asarray(r["z"]["variance"])[0] / n), 1e-12, "error for %d samples" % n)
            close(np.asarray(r["z"]["variance"])[0], 1 - np.asarray(r["z"]["mean"])[0]**2, 1e-9, "variance of Sz")
    B.case("measure: Monte Carlo error", measure_err)

    def search(minsr, obs, shift=2.):
        h = 0.03
        log = []

        class Out:
            def write_observables(self, n, **k):
                log.append((n, {a: {b: np.asarray(c) for b, c in d.items()} for a, d in k.items()}))

            def print(self, *a):
                pass

            def __getattr__(self, k):
                return lambda *a, **kw: None
        psi, ref = net(12), net(12)
        H = tfi()

        def eqn(s):
            smp = jv.sampler.ExactSampler(s, (L,))
            return (jv.util.minsr.MinSR(smp, pinvTol=1e-8) if minsr else jv.util.tdvp.TDVP(smp, rhsPrefactor=1., pinvTol=1e-8, pinvCutoff=1e-8, diagonalShift=shift, makeReal="real")), smp
        eq, smp = eqn(psi)
        o = {"energy": H, "z": [single((op.Sz(0),)), single((op.Sx(1),))]}
        U.ground_state_search(psi, H, eq, smp, numSteps=3, varianceTol=1e-10, stepSize=h, observables=o if obs else None, outp=Out())
        eq2, smp2 = eqn(ref)
        want = [(0, U.measure(o, ref, smp2))]
        for n in range(3):
            p = ref.get_parameters()
            if not minsr:
                eq2.set_diagonal_shift(shift * 0.95**n)
            ref.set_parameters(p + h * eq2(p, 0, psi=ref, hamiltonian=H, numSamples=None, intStep=0))
            want.append((n + 1, U.measure(o, ref, smp2)))
        close(psi.get_parameters(), ref.get_parameters(), 1e-9, "parameters after three steps")
        if obs:
            if [x[0] for x in log] != [0, 1, 2, 3]:
                raise AssertionError("records for steps %s" % [x[0] for x in log])
            for (n, a), (_, b) in zip(log, want):
                for k in o:
                    close(a[k]["mean"], np.asarray(b[k]["mean"]), 1e-8, "%s after %d steps" % (k, n))
        elif log:
            raise AssertionError("unexpected records")
        if not minsr:
            close(eq.diagonalShift, shift * 0.95**3, 1e-12 * shift, "diagonal shift after three steps")
    for minsr in (False, True):
        for obs in (True, False):
            B.case("ground state search minsr=%s observables=%s" % (minsr, obs), lambda a=(minsr, obs): search(*a))

    for shift in (1e-3, 0., 1e-7):
        B.case("ground state search with shift %g" % shift, lambda x=shift: search(False, False, x))

    def stops(at):
        class Eq:
            n = 0

            def __call__(self, y, t, **kw):
                self.n += 1
                return jnp.ones_like(y)

            def get_energy_variance(self):
                return [0.9, 0.5, 1e-4, 0.3, 1e-4, 0.2][self.n - 1] if at is None else [0.9, 0.5, 0.8, 0.3, 0.6, 0.2, .1, .1, .1][self.n - 1]

            def get_energy_mean(self):
                return 0.
        psi = net(3)
        p = np.asarray(psi.get_parameters())
        e = Eq()
        U.ground_state_search(psi, None, e, None, numSteps=5 if at is None else at, varianceTol=1e-4, stepSize=0.1)
        k = 3 if at is None else at
        if e.n != k:
            raise AssertionError("%d steps instead of %d" % (e.n, k))
        close(psi.get_parameters(), p + 0.1 * k, 1e-12, "parameters")
    for at in (None, 0, 1, 4, 6):
        B.case("search stops %s" % at, lambda at=at: stops(at))

    # ------------------------------------------------------------------ init_net

    def plain(d, par, s):
        """value of the network d with parameters par at configuration s (through the plain module)"""
        types = dict(RBM=jv.nets.RBM, FFN=jv.nets.FFN, CNN=jv.nets.CNN, RNN=jv.nets.RNN1DGeneral, RNN2D=jv.nets.RNN2DGeneral, CpxRBM=jv.nets.CpxRBM, CpxCNN=jv.nets.CpxCNN)
        kw = dict(d["parameters"])
        if "actFun" in kw:
            kw["actFun"] = tuple(jv.nets.activation_functions.activationFunctions[k] for k in kw["actFun"]) if isinstance(kw["actFun"], list) else jv.nets.activation_functions.activationFunctions[kw["actFun"]]
        return complex(types[d["type"]](**kw).apply({"params": par}, jnp.array(s)))

    def build(dims, descr):
        descr = dict(descr, batch_size=6)
        before = copy.deepcopy(descr)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            psi = U.init_net(descr, dims, seed=5)
            if repr(before) != repr(descr):
                raise AssertionError("description was changed to %r" % descr)
            psi2 = U.init_net(descr, dims, 5)
        close(psi.get_parameters(), np.asarray(psi2.get_parameters()), 0, "parameters for the same seed")
        if psi.batchSize != 6:
            raise AssertionError("batch size %s" % psi.batchSize)
        rg = B.rng("C19i")
        p = np.asarray(psi.get_parameters())
        psi.set_parameters(jnp.array(p + 0.3 * rg.normal(size=p.shape)))
        q = psi.parameters["params"]["net"]
        syms = [k for k in ("translation", "rotation", "reflection", "spinflip") if k in descr]
        fac = {k + "_factor": descr.get(k + "_factor", 1) for k in syms}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            orb = (jv.util.symmetries.get_orbit_1D if len(dims) == 1 else jv.util.symmetries.get_orbit_2D_square)(dims[0], *syms, **fac)
        O, fc = np.asarray(orb.orbit), np.asarray(orb.factor)
        gen = descr["net1"]["type"] in ("RNN", "RNN2D")
        if bool(psi.is_generator) != gen:
            raise AssertionError("generator property %s" % psi.is_generator)
        s = rg.integers(0, 2, size=(B.D, 2) + dims)
        out = np.asarray(psi(jnp.array(s)))
        for d in range(B.D):
            for k in range(2):
                vals = []
                for g in O:
                    t = ((g @ (2 * s[d, k].ravel() - 1) + 1) // 2).reshape(dims)
                    if "net2" in descr:
                        vals.append(plain(descr["net1"], q["nets_0"], t) + 1j * plain(descr["net2"], q["nets_1"], t))
                    else:
                        vals.append(plain(descr["net1"], q, t))
                vals = np.array(vals)
                if gen:
                    w = 0.5 * np.log(np.mean(np.exp(2 * vals.real))) + 1j * np.angle(np.mean(np.exp(1j * vals.imag)))
                else:
                    w = np.log((fc * np.exp(vals)).sum())
                if abs(out[d, k].real - w.real) > 1e-9 or abs(np.exp(1j * (out[d, k].imag - w.imag)) - 1) > 1e-9:
                    raise AssertionError("value at %s is %s instead of %s" % (s[d, k].tolist(), out[d, k], w))
        if gen:
            x = np.asarray(psi.sample(3, jax.random.split(jax.random.PRNGKey(1), B.D)))
            if x.shape != (B.D, 3) + dims:
                raise AssertionError("samples of shape %s" % (x.shape,))
    FF = lambda l, a: dict(type="FFN", parameters=dict(layers=l, bias=True, actFun=a))
    rnn = dict(type="RNN", parameters=dict(L=4, hiddenSize=3, realValuedOutput=True, actFun="elu"))
    same = FF((2,), ["tanh"])
    for nm, dims, descr in (("RBM", (4,), dict(net1=dict(type="RBM", parameters=dict(numHidden=2)))), ("FFN", (4,), dict(net1=FF((3, 2), ["tanh", "elu"]), translation=True)),
                            ("FFN, spin flip", (4,), dict(net1=FF((3,), ["tanh"]), reflection=True, spinflip=True)),
                            ("CpxRBM momentum", (4,), dict(net1=dict(type="CpxRBM", parameters=dict(numHidden=2, bias=True)), translation=True, translation_factor=-1)),
                            ("CpxRBM complex momentum", (4,), dict(net1=dict(type="CpxRBM", parameters=dict(numHidden=2, bias=True)), translation=True, translation_factor=1j)),
                            ("CpxCNN", (4,), dict(net1=dict(type="CpxCNN", parameters=dict(F=(2,), channels=(2,))), reflection=True)),
                            ("CNN square", (3, 3), dict(net1=dict(type="CNN", parameters=dict(F=(2, 2), channels=(2, 3), strides=(1, 1), actFun=["elu", "tanh"])), rotation=True)),
                            ("two networks", (4,), dict(net1=FF((3,), ["tanh"]), net2=FF((2,), ["square", "elu"]), translation=True)),
                            ("two networks, shared description", (4,), dict(net1=same, net2=same)),
                            ("two networks with character", (4,), dict(net1=dict(type="RBM", parameters=dict(numHidden=2)), net2=FF((2,), ["elu"]), reflection=True, reflection_factor=-1, spinflip=True)),
                            ("RNN", (4,), dict(net1=rnn, translation=True)), ("RNN and phase", (4,), dict(net1=rnn, net2=FF((2,), ["tanh"]), reflection=True)),
                            ("RNN2D", (2, 2), dict(net1=dict(type="RNN2D", parameters=dict(L=2, hiddenSize=2)), rotation=True))):
        B.case("init_net " + nm, lambda a=(dims, descr): build(*a))
