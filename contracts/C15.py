"""C15  TDVP / MinSR: the returned update solves the regularised equation for the given data; the wave function is left as it was."""


def symbolic(C):
    import numpy as np
    import jax
    import jax.numpy as jnp
    from engine import harness as H, terms as T, logic, sym
    from engine.terms import lift, ONE, ZERO, conj
    jv = H.load()
    mpi, comm = jv.mpi_wrapper, jv._comm
    import jVMC.util.tdvp as td
    import jVMC.util.minsr as ms
    from jVMC.stats import SampledObs
    import jVMC.sampler as smp
    Rd, D, N, K = sym.sdims("R, D, N, K")
    comm.Rdim = Rd
    H.DEVDIM[0] = D
    r = comm.rvar
    Rp, Dp, Np, Kp = comm.R, sym.dim_poly(D), sym.dim_poly(N), sym.dim_poly(K)
    C.assume("eigh(S) returns eigenvalues and eigenvectors of S; pinv(T, rtol, hermitian=True) the pseudo-inverse of T: external contracts",
             "weights positive; floating point treated as exact arithmetic; MPI and pmap contracts as in C02, statistics as in C03 (inlined here)",
             "norms of F and of the deviation, eigenvalues and signal-to-noise ratios are nonzero where the code divides by them")
    app = T.app
    w = lambda a, b, c: app("w", a, b, c)

    def S(f):
        a, b, c = T.fresh("a"), T.fresh("b"), T.fresh("c")
        return T.mk_sum([(a, Rp), (b, Dp), (c, Np)], f(a, b, c))
    sc = lambda v, dt=np.float64: sym.from_fun((), dt, lambda: v)
    F_ = "jVMC.util.tdvp.TDVP."
    T.declare("ev", real=True)

    def spec(kind, tag=""):
        """weighted moments of the data named O<tag>, E<tag>"""
        O = lambda a, b, c, k: app("O" + tag, a, b, c, k)
        E = lambda a, b, c: app("E" + tag, a, b, c)
        mO = lambda k: S(lambda a, b, c: w(a, b, c) * O(a, b, c, k))
        mE = S(lambda a, b, c: w(a, b, c) * E(a, b, c))
        cov = lambda k, l: S(lambda a, b, c: w(a, b, c) * conj(O(a, b, c, k) - mO(k)) * (O(a, b, c, l) - mO(l)))
        frc = lambda k: S(lambda a, b, c: w(a, b, c) * conj(O(a, b, c, k) - mO(k)) * (E(a, b, c) - mE))
        var = S(lambda a, b, c: w(a, b, c) * conj(E(a, b, c) - mE) * (E(a, b, c) - mE))
        return mE, var, cov, frc
    W = lambda: sym.inp("w", (D, N), np.float64, prefix=(r,), pos=True)
    q = {"real": lambda z: (z + conj(z)) / 2, "imag": lambda z: (z - conj(z)) / 2}

    for kind in ("real", "imag"):
        for x in (1., 1j, 0.6 - 0.8j):
            for shift in (0., 0.3) + ((1e-6, 5e-10) if x != 1. else ()):
                for sr in ((False, True) if x == 1j else (False,)):
                    with C.block("equation q=%s x=%s shift=%s%s" % (kind, x, shift, " (get_sr_equation)" if sr else ""),
                                 [F_ + "get_tdvp_equation"] + ([F_ + "get_sr_equation"] if sr else []) + [F_ + "get_energy_mean"]):
                        t = td.TDVP(None, makeReal=kind, rhsPrefactor=x, diagonalShift=1.)
                        t.set_diagonal_shift(shift)
                        Eo = SampledObs(sym.inp("E", (D, N), np.complex128, prefix=(r,)), W())
                        Oo = SampledObs(sym.inp("O", (D, N, K), np.complex128, prefix=(r,)), W())
                        Sm, F = (t.get_sr_equation if sr else t.get_tdvp_equation)(Eo, Oo)
                        k, l = C.idx("k", K), C.idx("l", K)
                        mE, var, cov, frc = spec(kind)
                        C.struct("shapes", tuple(Sm.shape) == (K, K) and tuple(F.shape) == (K,), detail="%s %s" % (Sm.shape, F.shape))
                        xx = lift(1. if sr else x)
                        C.eq("force vector F_k = -q[x <(O_k)^* E>_c]", F.term(k), -q[kind](xx * frc(k)))
                        g = T.var("gap", int_=True, nonneg=True)
                        C.eq("S_kk = (1 + shift) q[<O_k^* O_k>_c]", Sm.term(k, k), q[kind](cov(k, k)) * (1 + lift(shift)))
                        C.eq("S_kl = q[<O_k^* O_l>_c], k < l", Sm.term(k, k + 1 + g), q[kind](cov(k, k + 1 + g)))
                        C.eq("S_kl = q[<O_k^* O_l>_c], k > l", Sm.term(l + 1 + g, l), q[kind](cov(l + 1 + g, l)))
                        C.eq("energy mean", t.ElocMean.term(), mE)
                        C.eq("energy variance", t.ElocVar.term(), var)
                        if sr:
                            _, F = t.get_tdvp_equation(Eo, Oo)
                            C.eq("force vector with the object's own prefactor afterwards", F.term(k), -q[kind](lift(x) * frc(k)))

    # ---- solving: eigh is an external contract; everything else is the real code, the statistics included
    class Ex(smp.ExactSampler):
        def __init__(self):
            pass
    G, tol = T.var("Gl", pos=True), T.var("tol", pos=True)

    def eigh_stub(log, Kd):
        def eigh(a, *aa, **kw):
            log.append(a)
            return sym.inp("ev", (Kd,), np.float64), sym.inp("V", (Kd, Kd), np.complex128)
        return eigh

    class NpShim:
        def __init__(self, base, eigh):
            self.base = base
            self.linalg = type("LA", (), dict(eigh=staticmethod(eigh)))()

        def __getattr__(self, k):
            return getattr(self.base, k)

        def array(self, x, *a, **k):
            return x
        asarray = array
    for kind in ("real", "imag"):
        for exact in (True, False):
            for dev in ((True, False) if exact else (True,)):
                with C.block("solve q=%s %s%s" % (kind, "exact" if exact else "Monte Carlo", "" if dev else " host diagonalisation"),
                             [F_ + "solve", F_ + "_transform_to_eigenbasis", F_ + "_get_snr"], limit=300):
                    x = 1j if kind == "imag" else 1.
                    log = []
                    T.declare("FR", real=True)
                    T.declare("VAR", real=True, nonneg=True)
                    stub = eigh_stub(log, K)
                    Fs = lambda a: app("FR", a) * (lift(1j) if kind == "imag" else ONE)

                    class Data:                        # contract of SampledObs.covar_data(...).transform(...).var() (C03), the statistics opaque
                        def __init__(self, lin=None, nl=None):
                            self.lin, self.nl = lin, nl

                        def transform(self, nonLinearFun=lambda z: z, linearFun=None):
                            d = sym.inp("dat", (K, 1), np.complex128)
                            z = nonLinearFun(d)
                            return Data(z if linearFun is None else linearFun @ z, True)

                        def var(self):
                            z = self.lin
                            return sym.from_fun(z.shape, np.float64, lambda *i: app("VAR", sym.get_arr(z).at(*i)))

                    class Grad:
                        def covar_data(self, other=None):
                            assert other is Eobj
                            return Data()
                    Eobj, Gobj = object(), Grad()
                    T.declare("nrm", pos=True)
                    norms = []

                    def norm(v, *a, **k):              # external contract: Euclidean norm of its argument
                        norms.append(v)
                        return sc(app("nrm", lift(len(norms))))

                    def run():
                        log.clear()
                        norms.clear()
                        t = td.TDVP(Ex() if exact else object(), makeReal=kind, rhsPrefactor=x, pinvTol=sc(tol), pinvCutoff=0.005, snrTol=3, diagonalizeOnDevice=dev)
                        Sa = sym.inp("SM", (K, K), np.complex128)
                        Fa = sym.from_fun((K,), np.complex128 if kind == "imag" else np.float64, lambda a: Fs(a))

                        def eqn(E, O, *a, **k):
                            log.append((E is Eobj, O is Gobj))
                            return Sa, Fa
                        t.get_tdvp_equation = eqn      # its contract: block "equation ..."
                        try:
                            with H.patched((mpi, "globNumSamples", sc(G)), (jnp.linalg, "eigh", stub), (jnp.linalg, "norm", norm), (td, "np", NpShim(td.np, stub))):
                                u, res, cut = t.solve(Eobj, Gobj)
                        except UnboundLocalError:
                            return None                # pinvTol >= 1: outside the contract
                        return t, u, res, cut, list(log), list(norms)
                    n = 0
                    for out, cond, fixed in sym.explore(run):
                        if out is None:
                            continue
                        n += 1
                        t, u, res, cut, lg, nr = out
                        P = "exit %d: " % n
                        k, l = C.idx("k", K), C.idx("l", K)
                        j = T.fresh("j")
                        V = lambda a, b: app("V", a, b)
                        ev = lambda a: app("ev", a)
                        if not C.struct(P + "one equation, one diagonalisation", len(lg) == 2 and lg[0] == (True, True)):
                            break
                        C.eq(P + "S is diagonalised", sym.replace_atoms(lg[1].term(k, l), fixed), app("SM", k, l))
                        VtF = lambda a: T.mk_sum([(j, Kp)], conj(V(j, a)) * Fs(j))
                        cutv = float(cut)
                        C.true(P + "cutoff bounded below by pinvCutoff", cutv >= 0.005, detail=str(cutv))
                        if cutv != 0.005:
                            C.smt_poly(P + "residual within pinvTol, or cutoff exhausted", [("le", sym.replace_atoms(sym.get_arr(res).at(), fixed) - tol)], cond)
                        # specification in terms of the opaque eigensystem
                        Va, eva = sym.inp("V", (K, K), np.complex128), sym.inp("ev", (K,), np.float64)
                        vtf = sym.from_fun((K,), np.complex128, lambda a: VtF(a))
                        rel = jnp.abs(eva / eva[-1])
                        reg = 1. / (1. + (cutv / rel) ** 6)
                        if not exact:
                            vza = sym.from_fun((K,), np.float64, lambda i: app("VAR", T.mk_sum([(j, Kp)], conj(V(j, i)) * q[kind](lift(-x) * app("dat", j, ZERO)))))
                            snr = jnp.sqrt(jnp.abs(sc(G) * vtf * jnp.conj(vtf) / vza))
                            C.eq(P + "signal-to-noise ratio", sym.replace_atoms(t.snr.term(k), fixed), snr.term(k))
                            reg = reg / (1. + (3 / snr) ** 6)
                        pinv = jnp.where(rel > 1e-14, 1. / eva, 0.) * reg
                        upd = jnp.real(Va @ (pinv * vtf))
                        C.eq(P + "update = Re V pinv(Sigma) V^+ F with the returned cutoff", sym.replace_atoms(u.term(k), fixed), upd.term(k))
                        dev_ = (pinv * eva - 1.) * vtf
                        # the norm is even: its argument is compared up to its sign
                        def find(w):
                            for i in range(len(nr) - 1, -1, -1):
                                if nr[i].shape == (K,):
                                    v = sym.replace_atoms(nr[i].term(k), fixed)
                                    for sg in (ONE, -ONE):
                                        if T.is_zero(v - sg * w):
                                            return i, sg
                            return None, ONE
                        if len(nr) < 2:
                            C.undecided(P + "residual = |(pinv(Sigma) Sigma - 1) V^+ F| / |F|", "norms not formed through jnp.linalg.norm")
                        else:
                            iF, sF = find(Fs(k))
                            if C.struct(P + "norm of F", iF is not None):
                                iD, sD = find(dev_.term(k))
                                C.eq(P + "deviation (pinv(Sigma) Sigma - 1) V^+ F", sym.replace_atoms(nr[-1 if iD is None else iD].term(k), fixed), sD * dev_.term(k))
                                C.eq(P + "residual = |deviation| / |F|", sym.replace_atoms(sym.get_arr(res).at(), fixed), app("nrm", lift(len(nr) if iD is None else iD + 1)) / app("nrm", lift(iF + 1)))
                    C.true("all exits explored", n >= 4, detail=str(n))

    # ---- the call: evaluated at the given parameters, the wave function left as found
    class Psi:
        def __init__(self):
            self.P, self.hist = "old", []

        def get_parameters(self):
            return self.P

        def set_parameters(self, P):
            self.P = P

        def gradients(self, s):
            self.hist.append(("grad", self.P, s))
            return sym.inp("O" + str(self.P), (D, N, K), np.complex128, prefix=(r,))

    class Sampler(smp.ExactSampler):
        def __init__(self, psi):
            self.psi, self.log = psi, []

        def sample(self, *a, **k):
            self.log.append((self.psi.P, a, k))
            self.out = (sym.inp("s", (D, N, 2), np.int32, prefix=(r,)), sym.inp("lp", (D, N), np.complex128, prefix=(r,)), W())
            return self.out

    class Ham:
        def __init__(self):
            self.log = []

        def get_O_loc(self, s, psi, logPsi=None, *a, **k):
            self.log.append((psi.P, s, psi, logPsi, a, k))
            return sym.inp("E" + str(psi.P), (D, N), np.complex128, prefix=(r,))

    class Outp:
        def __init__(self):
            self.open, self.bad = [], 0

        def start_timing(self, n):
            self.open.append(n)

        def stop_timing(self, n):
            if n in self.open:
                self.open.remove(n)
            else:
                self.bad += 1

        def add_timing(self, n, t):
            pass
    mE, var, cov, frc = spec("", "new")
    for step in (None, 0, 1):
        for outp in (False, True):
            with C.block("call intStep=%s%s" % (step, " with timings" if outp else ""), [F_ + "__call__", F_ + "_get_tdvp_error", F_ + "get_residuals", F_ + "get_energy_variance", F_ + "get_energy_mean", F_ + "get_S", F_ + "S_dot"]):
                psi, ham, o = Psi(), Ham(), Outp()
                S_ = Sampler(psi)
                t = td.TDVP(S_, makeReal="imag", rhsPrefactor=1j)
                given = []
                k, l = C.idx("k", K), C.idx("l", K)
                U = sym.inp("U", (K,), np.float64)

                def solve(Eo, Oo):
                    given.append((Eo, Oo))
                    t.S, F = t.get_tdvp_equation(Eo, Oo)
                    t.snr, t.ev = sym.inp("snr", (K,), np.float64), sym.inp("ev", (K,), np.float64)
                    return U, sc(T.var("res")), 0.01
                t.solve = solve
                kw = dict(numSamples=37)
                if step is not None:
                    kw["intStep"] = step
                if outp:
                    kw["outp"] = o
                t.ElocMean0, t.ElocVar0 = sc(T.var("em0")), sc(T.var("ev0"))
                t.metaData = "before"
                u = t("new", 0.25, psi=psi, hamiltonian=ham, **kw)
                C.true("update returned", T.is_zero(u.term(k) - app("U", k)))
                C.true("parameters restored", psi.P == "old", detail=str(psi.P))
                C.struct("one sample, one local energy, one gradient", len(S_.log) == 1 and len(ham.log) == 1 and len(psi.hist) == 1 and len(given) == 1)
                C.true("evaluated at the given parameters", S_.log[0][0] == "new" and ham.log[0][0] == "new" and psi.hist[0][1] == "new")
                C.true("requested number of samples", (S_.log[0][2].get("numSamples") or (S_.log[0][1] or (None,))[0]) == 37 or S_.log[0][1][-1:] == (37,), detail=str(S_.log[0][1:]))
                h = ham.log[0]
                C.true("local energy of the sample at the given time", h[1] is S_.out[0] and h[2] is psi and h[3] is S_.out[1] and (h[4] == (0.25,) or h[5] == dict(t=0.25)), detail=str(h[4:]))
                C.true("gradients of the sample", psi.hist[0][2] is S_.out[0])
                Eo, Oo = given[0]
                C.eq("energies weighted with the sample's weights", Eo.mean().term(0), mE)
                C.eq("covariance of gradients with the sample's weights", Oo.covar().term(k, l), cov(k, l))
                C.eq("get_S: matrix of the solved equation", t.get_S().term(k, l), q["imag"](cov(k, l)))
                j = T.fresh("j")
                C.eq("S_dot: product with the covariance matrix", t.S_dot(sym.inp("Vc", (K,), np.complex128)).term(k), T.mk_sum([(j, Kp)], cov(k, j) * app("Vc", j)))
                C.true("timings balanced", not o.open and not o.bad)
                if step == 0:
                    C.eq("energy mean", t.ElocMean0.term(), mE)
                    C.eq("get_energy_mean", t.get_energy_mean().term(), (mE + conj(mE)) / 2)
                    C.eq("energy variance", t.get_energy_variance().term(), var)
                    C.eq("residual", t.get_residuals()[1].term(), T.var("res"))
                    C.eq("spectrum", t.get_spectrum().term(k), app("ev", k))
                    C.eq("signal-to-noise ratio", t.get_snr().term(k), app("snr", k))
                else:
                    C.true("meta data of the first sub-step kept", t.metaData == "before" and T.is_zero(t.ElocMean0.term() - T.var("em0")) and T.is_zero(t.ElocVar0.term() - T.var("ev0")))
    # ---- cross validation: trained on one half of the sample, validated on the other, compared with the full solution
    for step in (0, 1, None):
        with C.block("cross validation intStep=%s" % step, [F_ + "__call__", F_ + "_get_tdvp_error", F_ + "set_cross_validation"]):
            psi, ham = Psi(), Ham()
            S_ = Sampler(psi)
            k, l = C.idx("k", K), C.idx("l", K)
            bad = []

            class Obs:                                 # contract of SampledObs.subset: the selected samples
                def __init__(self, data, p=None, sel=tuple(range(8))):
                    self.kind = data if isinstance(data, str) else ("E" if len(data.shape) == 2 else "O")
                    self.sel = sel
                    if p is not None and p is not S_.out[2]:
                        bad.append("weights")

                def subset(self, start=None, end=None, step=None):
                    return Obs(self.kind, None, self.sel[slice(start, end, step)])
            full = tuple(range(8))
            tags = {}

            def tag(Eo, Oo):
                if Eo.kind != "E" or Oo.kind != "O" or Eo.sel != Oo.sel:
                    bad.append("mixed samples %s %s" % (Eo.sel, Oo.sel))
                return tags.setdefault(Eo.sel, "f" if Eo.sel == full else "h%d" % len(tags))
            used = []

            def fam(g):
                T.declare("cU" + g, real=True)
                T.declare("cS" + g, real=True)
                T.declare("cF" + g, real=True)
                return sym.inp("cU" + g, (K,), np.float64), sym.inp("cS" + g, (K, K), np.float64), sym.inp("cF" + g, (K,), np.float64), sym.inp("cS0" + g, (K, K), np.complex128), sym.inp("cF0" + g, (K,), np.complex128)
            with H.patched((td, "SampledObs", Obs)):
                t = td.TDVP(S_, makeReal="real", rhsPrefactor=1j)
                t.set_cross_validation()

                def eqn(Eo, Oo, *a, **kw):
                    g = tag(Eo, Oo)
                    used.append(("eq", g))
                    f = fam(g)
                    t.S0, t.F0 = f[3], f[4]
                    t.ElocMean, t.ElocVar = sc(T.var("cm" + g)), sc(T.var("cv" + g, pos=True))
                    return f[1], f[2]

                def solve(Eo, Oo):
                    g = tag(Eo, Oo)
                    used.append(("solve", g))
                    t.S, _ = eqn(Eo, Oo)
                    t.snr, t.ev = sym.inp("csnr" + g, (K,), np.float64), sym.inp("cev" + g, (K,), np.float64)
                    return fam(g)[0], sc(T.var("cr" + g, pos=True)), 0.01
                t.get_tdvp_equation, t.solve = eqn, solve
                kw = {} if step is None else dict(intStep=step)
                u = t("new", 0.25, psi=psi, hamiltonian=ham, **kw)
            C.true("parameters restored", psi.P == "old", detail=str(psi.P))
            C.true("energies, gradients and weights of the same samples", not bad, detail=str(bad))
            C.eq("update of the full sample returned", u.term(k), app("cUf", k))
            C.eq("S of the full sample afterwards", t.S.term(k, l), app("cSf", k, l))
            C.eq("spectrum of the full sample afterwards", t.ev.term(k), app("cevf", k))
            if step != 0:
                C.true("cross validation in the first sub-step only", len([x for x in used if x[0] == "solve"]) == 1, detail=str(used))
            else:
                m = t.get_metadata()
                C.eq("energy variance", t.get_energy_variance().term(), T.var("cvf", pos=True))
                tr = [g for w_, g in used if w_ == "solve" and g != "f"]
                va = [g for w_, g in used if w_ == "eq" and g != "f" and g not in tr]
                inv = {v: s for s, v in tags.items()}
                if C.struct("one half for training, one for validation", len(set(tr)) == 1 and len(set(va)) == 1, detail=str(used)):
                    h1, h2 = tr[0], va[0]
                    C.true("the halves partition the sample", sorted(inv[h1] + inv[h2]) == list(full), detail=str(inv))
                    re = q["real"]

                    def err(u, g):
                        a, b = T.fresh("a"), T.fresh("b")
                        val = ONE + (T.mk_sum([(a, Kp), (b, Kp)], app("cU" + u, a) * app("cU" + u, b) * re(app("cS0" + g, a, b))) - 2 * T.mk_sum([(a, Kp)], app("cU" + u, a) * re(app("cF0" + g, a)))) / T.var("cvf", pos=True)
                        return jnp.abs(sc(val))
                    C.eq("tdvp_error of the full sample", sym.get_arr(m["tdvp_error"]).at(), err("f", "f").term())
                    C.eq("residual of the full sample", sym.get_arr(m["tdvp_residual"]).at(), T.var("crf", pos=True))
                    C.eq("ratio of TDVP errors: validation half / full", sym.get_arr(m["tdvp_error_cross_validation_ratio"]).at(), (err(h1, h2) / err("f", "f")).term())
                    f1, f2 = fam(h1), fam(h2)
                    C.eq("ratio of residuals: validation half / full", sym.get_arr(m["tdvp_residual_cross_validation_ratio"]).at(), (jnp.linalg.norm(f2[1].dot(f1[0]) - f2[2]) / jnp.linalg.norm(f2[2]) / sc(T.var("crf", pos=True))).term())

    with C.block("TDVP error", [F_ + "_get_tdvp_error"]):
        t = td.TDVP(None)
        t.S0, t.F0, t.ElocVar0 = sym.inp("S0", (K, K), np.complex128), sym.inp("F0", (K,), np.complex128), sc(T.var("v", pos=True))
        U = sym.inp("U", (K,), np.float64)
        T.declare("U", real=True)
        a, b = T.fresh("a"), T.fresh("b")
        re = q["real"]
        val = ONE + (T.mk_sum([(a, Kp), (b, Kp)], app("U", a) * app("U", b) * re(app("S0", a, b))) - 2 * T.mk_sum([(a, Kp)], app("U", a) * re(app("F0", a)))) / T.var("v", pos=True)
        sp = jnp.abs(sc(val))
        C.eq("|1 + (u S u - 2 Re u F) / var(E)|", t._get_tdvp_error(U).term(), sp.term())

    # ---- MinSR
    M_ = "jVMC.util.minsr.MinSR."
    with C.block("MinSR solve", [M_ + "solve", M_ + "set_pinv_tol"], limit=200):
        m = ms.MinSR(None, pinvTol=1.)
        m.set_pinv_tol(0.125)
        Eo = SampledObs(sym.inp("E", (D, N), np.complex128, prefix=(r,)), W())
        Oo = SampledObs(sym.inp("O", (D, N, K), np.complex128, prefix=(r,)), W())
        logp = []
        X = Rd * D * N

        def pinv(a, rtol=None, hermitian=False, **k):
            logp.append((a, rtol, hermitian, k))
            return sym.inp("TI", a.shape, np.complex128)
        with H.patched((jnp.linalg, "pinv", pinv)):
            u = m.solve(Eo, Oo)
        if C.struct("one pseudo-inverse", len(logp) == 1 and len(logp[0][0].shape) == 2):
            a, rtol, herm, kk = logp[0]
            C.true("tolerance of the pseudo-inverse", rtol == 0.125 or kk.get("rcond") == 0.125, detail=str((rtol, kk)))
            C.struct("shapes", tuple(u.shape) == (K,) and tuple(a.shape) == (X, X), detail="%s %s" % (u.shape, a.shape))
            mE, var, cov, frc = spec("")
            O = lambda i, k: app("O", *i, k)
            mO = lambda k: S(lambda a, b, c: w(a, b, c) * app("O", a, b, c, k))
            sq = lambda i: T.ppow(w(*i), T.Q(1, 2))
            k = C.idx("k", K)
            i1 = [C.idx("ra", comm.R), C.idx("da", D), C.idx("na", N)]
            i2 = [C.idx("rb", comm.R), C.idx("db", D), C.idx("nb", N)]
            lin = lambda i: i[0] * Dp * Np + i[1] * Np + i[2]
            kk = T.fresh("kk")
            Ob = lambda i, k: sq(i) * (O(i, k) - mO(k))
            Eb = lambda i: sq(i) * (app("E", *i) - mE)
            C.eq("kernel T = O O^+ of the centred, weighted gradients", a.term(lin(i1), lin(i2)), T.mk_sum([(kk, Kp)], Ob(i1, kk) * conj(Ob(i2, kk))))
            v1, v2 = T.fresh("v"), T.fresh("v")
            at = lambda v: [T.floordiv(v, Dp * Np), T.floordiv(v, Np) - Dp * T.floordiv(v, Dp * Np), v - Np * T.floordiv(v, Np)]
            C.eq("update = - O^+ pinv(T) E", u.term(k), -T.mk_sum([(v1, Rp * Dp * Np), (v2, Rp * Dp * Np)], conj(Ob(at(v1), k)) * app("TI", v1, v2) * Eb(at(v2))))
    mE, var, cov, frc = spec("", "new")
    for step in (None, 0, 1):
        with C.block("MinSR call intStep=%s" % step, [M_ + "__call__", M_ + "get_energy_mean", M_ + "get_energy_variance"]):
            psi, ham, o = Psi(), Ham(), Outp()
            S_ = Sampler(psi)
            t = ms.MinSR(S_)
            given = []
            k, l = C.idx("k", K), C.idx("l", K)
            U = sym.inp("U", (K,), np.float64)
            t.solve = lambda Eo, Oo: (given.append((Eo, Oo)), U)[1]
            kw = dict(numSamples=37, outp=o)
            if step is not None:
                kw["intStep"] = step
            t.ElocMean0, t.ElocVar0 = sc(T.var("em0")), sc(T.var("ev0"))
            u = t("new", 0.25, psi=psi, hamiltonian=ham, **kw)
            C.true("update returned", T.is_zero(u.term(k) - app("U", k)))
            C.true("parameters restored", psi.P == "old", detail=str(psi.P))
            C.struct("one sample, one local energy, one gradient", len(S_.log) == 1 and len(ham.log) == 1 and len(psi.hist) == 1 and len(given) == 1)
            C.true("evaluated at the given parameters", S_.log[0][0] == "new" and ham.log[0][0] == "new" and psi.hist[0][1] == "new")
            h = ham.log[0]
            C.true("local energy of the sample at the given time", h[1] is S_.out[0] and h[2] is psi and h[3] is S_.out[1] and (h[4] == (0.25,) or h[5] == dict(t=0.25)), detail=str(h[4:]))
            C.true("gradients of the sample", psi.hist[0][2] is S_.out[0])
            Eo, Oo = given[0]
            C.eq("energies weighted with the sample's weights", Eo.mean().term(0), mE)
            C.eq("covariance of gradients with the sample's weights", Oo.covar().term(k, l), cov(k, l))
            C.true("timings balanced", not o.open and not o.bad)
            if step == 0:
                C.eq("energy mean", t.ElocMean0.term(), mE)
                C.eq("energy variance", t.get_energy_variance().term(), var)
            else:
                C.true("energies of the first sub-step kept", T.is_zero(t.ElocMean0.term() - T.var("em0")) and T.is_zero(t.ElocVar0.term() - T.var("ev0")))


def battery(B):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import jVMC as jv
    from engine.world import close
    from engine.tabnet import TabNet
    op = jv.operator
    L = 3

    class Ham(op.BranchFreeOperator):
        """transverse-field chain with an additional field that grows with time"""
        def __init__(self):
            super().__init__()
            for l in range(L):
                self.add(op.scal_opstr(-1., (op.Sz(l), op.Sz((l + 1) % L))))
                self.add(op.scal_opstr(-0.7 + 0.2 * l, (op.Sx(l),)))
            self.add(op.scal_opstr(0.3, (op.Sy(0), op.Sx(1))))
            self.times = []

        def get_O_loc(self, samples, psi, logPsiS=None, *args, **kw):
            t = args[0] if args else kw.get("t", None)
            self.times.append(t)
            return super().get_O_loc(samples, psi, logPsiS) * (1. + t)

    def gather(x):
        x = np.asarray(x)
        return np.concatenate([y.reshape((-1,) + y.shape[2:]) for y in B.comm.allgather(x)])

    class Rec:
        """passes through to the sampler and keeps what was drawn"""
        def __new__(cls, base):
            o = base.sample

            def sample(*a, **k):
                base.drawn = o(*a, **k)
                base.calls = getattr(base, "calls", []) + [k.get("numSamples", a[1] if len(a) > 1 else None)]
                return base.drawn
            base.sample = sample
            return base

    def ref_moments(O, E, p):
        p = p / 1.
        mO, mE = p @ O, p @ E
        dO, dE = O - mO, E - mE
        return mE, (p * abs(dE) ** 2).sum(), (dO.conj() * p[:, None]).T @ dO, (dO.conj() * p[:, None]).T @ dE, dO, dE

    def ref_solve(O, E, p, q, x, shift, tol, cut0, snrTol, exact, nglob):
        mE, var, cov, frc, dO, dE = ref_moments(O, E, p)
        Q = (lambda z: z.real.astype(complex)) if q == "real" else (lambda z: 1j * z.imag)
        S, F = Q(cov), Q(-x * frc)
        if shift > 1e-10:
            S = S + np.diag(shift * np.diag(S))
        ev, V = np.linalg.eigh(S)
        VtF = V.conj().T @ F
        d = Q(-x * dO.conj() * dE[:, None]) @ V.conj()
        rho = (p[:, None] * abs(d - p @ d) ** 2).sum(0)
        with np.errstate(all="ignore"):
            snr = np.sqrt(nglob * abs(VtF) ** 2 / rho)
        inv = np.where(abs(ev / ev[-1]) > 1e-14, 1 / ev, 0.)
        res, c = 1., 1e-2
        while res > tol and c > cut0:
            c *= 0.8
            reg = 1 / (1 + (max(c, cut0) / abs(ev / ev[-1])) ** 6)
            if not exact:
                reg = reg / (1 + (snrTol / snr) ** 6)
            pin = inv * reg
            res = np.linalg.norm((pin * ev - 1) * VtF) / np.linalg.norm(F)
        return (V @ (pin * VtF)).real, res, max(c, cut0), S, F, snr, ev, mE, var, cov, -x * frc

    import flax.linen as nn

    class Small(nn.Module):
        """four real parameters, complex log amplitudes: S has a simple spectrum"""
        @nn.compact
        def __call__(self, s):
            a = self.param("a", lambda k, sh: 0.1 * jax.random.normal(k, sh, dtype=jnp.float64), (4,))
            x = 2. * s - 1.
            return jnp.sin(a[0] * x[0] + a[1] * x[1]) + a[2] * x[0] * x[2] + 1j * (jnp.sin(a[1] * x[2] + a[3] * x[0] + 0.3) + a[2] * x[1] + a[0] * a[3] * x[1] * x[2])

    def nets():
        return {"rbm": (jv.nets.CpxRBM(numHidden=1, bias=True), 0.4), "rbm-real": (jv.nets.RBM(numHidden=2, bias=True), 0.6), "small": (Small(), 0.3)}

    def build(name, sampler, seed):
        net, sc = nets()[name]
        psi = jv.vqs.NQS(net, batchSize=3, seed=2)
        psi(jnp.zeros((B.D, 1, L), dtype=np.int32))
        rg = np.random.default_rng(seed)
        P0 = sc * rg.normal(size=int(psi.get_parameters().size))
        P1 = sc * rg.normal(size=P0.size)
        psi.set_parameters(jnp.array(P0))
        if sampler == "exact":
            S = jv.sampler.ExactSampler(psi, L)
        else:
            S = jv.sampler.MCSampler(psi, (L,), 7, updateProposer=jv.sampler.propose_spin_flip, numChains=10, numSamples=240, thermalizationSweeps=3, sweepSteps=3)
        return psi, Rec(S), P0, P1

    class Outp:
        """output manager: only the timings are used"""
        def __getattr__(self, k):
            return lambda *a, **kw: None

    def same_meta(a, b):
        if not (isinstance(a, dict) and isinstance(b, dict)):
            return a is b or a == b
        return a.keys() == b.keys() and all(np.array_equal(np.asarray(a[k]), np.asarray(b[k])) for k in a)

    def at(psi, P, s):
        old = psi.get_parameters()
        psi.set_parameters(jnp.array(P))
        g = gather(psi.gradients(s))
        psi.set_parameters(old)
        return g
    confs = []
    for name, sampler in (("rbm", "exact"), ("rbm-real", "exact"), ("small", "mcmc"), ("small", "exact")):
        for q, x in (("imag", 1j), ("real", 1.), ("real", 1j), ("imag", 0.6 + 0.8j)):
            if name == "rbm-real" and q == "imag":
                continue
            confs.append((name, sampler, q, x))
    for n, (name, sampler, q, x) in enumerate(confs):
        for shift in ((0., 0.2) if B.thorough or n % 2 == 0 else (0.2,)) + ((3e-6,) if n in (1, 4) else ()):
            for host in ((True, False) if B.thorough or n == 0 else (n % 2 == 0,)):
                def f():
                    psi, S, P0, P1 = build(name, sampler, 5 + n)
                    ham = Ham()
                    t = jv.util.TDVP(S, snrTol=1.3, pinvTol=1e-3, pinvCutoff=2e-6, makeReal=q, rhsPrefactor=x, diagonalShift=0.7, diagonalizeOnDevice=not host)
                    t.set_diagonal_shift(shift)
                    cnt = 0
                    for step, tt in (((3, 0.6),) if n % 2 else ()) + ((0, 0.3), (1, 0.8), (0, 0.), (None, 0.2)):
                        kw = {} if step is None else dict(intStep=step)
                        meta = t.get_metadata()
                        meta = dict(meta) if isinstance(meta, dict) else meta
                        if sampler == "mcmc":
                            kw["numSamples"] = 240
                        if cnt % 2 == n % 2:
                            kw["outp"] = Outp()
                        u = t(jnp.array(P1 * (1 + 0.1 * cnt)), tt, psi=psi, hamiltonian=ham, **kw)
                        close(psi.get_parameters(), P0, 0, "parameters of the wave function after the call")
                        if ham.times[-1] != tt:
                            raise AssertionError("Hamiltonian evaluated at time %s instead of %s" % (ham.times[-1], tt))
                        s, lp, p = S.drawn
                        PP = P1 * (1 + 0.1 * cnt)
                        O = at(psi, PP, s)
                        psi.set_parameters(jnp.array(PP))
                        E = gather(op.BranchFreeOperator.get_O_loc(ham, s, psi, psi(s))) * (1 + tt)
                        psi.set_parameters(jnp.array(P0))
                        pg = gather(p)
                        if sampler == "mcmc" and S.calls[-1] != 240:
                            raise AssertionError("number of samples not passed on")
                        r = ref_solve(O, E, pg, q, x, shift, 1e-3, 2e-6, 1.3, sampler == "exact", jv.mpi_wrapper.globNumSamples)
                        sc_ = max(1., abs(r[0]).max())
                        close(np.asarray(u) / sc_, r[0] / sc_, 2e-5, "update (step %s)" % step)
                        mE, var = r[7], r[8]
                        if step == 0:
                            close(t.get_energy_mean(), mE.real, 1e-8, "energy mean")
                            close(t.get_energy_variance(), var, 1e-8, "energy variance")
                            close(t.get_residuals()[1], r[1], 1e-6, "residual")
                            uu = np.asarray(u)
                            err = abs(1 + (uu @ r[9] @ uu - 2 * (uu @ r[10]).real).real / var)
                            close(t.get_residuals()[0], err, 1e-6, "TDVP error")
                            close(np.sort(np.asarray(t.get_spectrum())), np.sort(r[6]), 1e-8, "spectrum")
                        elif not same_meta(t.get_metadata(), meta):
                            raise AssertionError("meta data changed by sub-step %s" % step)
                        close(t.get_S(), r[3], 1e-8, "matrix of the equation (step %s)" % step)
                        v = B.rng("Sdot%d" % cnt).normal(size=(2, r[9].shape[0]))
                        close(t.S_dot(jnp.array(v[0] + 1j * v[1])), r[9] @ (v[0] + 1j * v[1]), 1e-8, "S_dot (step %s)" % step)
                        cnt += 1
                    return cnt
                B.case("update/%s/%s/q=%s x=%s shift=%s host=%s" % (name, sampler, q, x, shift, host), f)

    def f():
        psi, S, P0, P1 = build("small", "mcmc", 9)
        ham = Ham()
        kw = dict(snrTol=1.3, pinvTol=1e-3, pinvCutoff=2e-6, makeReal="imag", rhsPrefactor=1j)
        t = jv.util.TDVP(S, crossValidation=True, **kw)
        u = np.asarray(t(jnp.array(P1), 0.3, psi=psi, hamiltonian=ham, intStep=0))
        s, lp, p = S.drawn
        O, pd = at(psi, P1, s), np.asarray(p)
        psi.set_parameters(jnp.array(P1))
        Ed = op.BranchFreeOperator.get_O_loc(ham, s, psi, psi(s)) * 1.3
        Od = psi.gradients(s)
        psi.set_parameters(jnp.array(P0))
        ng = jv.mpi_wrapper.globNumSamples
        args = ("imag", 1j, 0., 1e-3, 2e-6, 1.3, False, ng)
        full = ref_solve(gather(Od), gather(Ed), gather(p), *args)
        close(u, full[0], 2e-5 * max(1, abs(full[0]).max()), "update with cross validation")
        close(t.get_S(), full[3], 1e-8, "S with cross validation")
        close(t.get_residuals()[1], full[1], 1e-6, "residual with cross validation")
        half = []
        for o in (0, 1):
            pp = gather(pd[:, o::2])
            half.append((gather(np.asarray(Od)[:, o::2]), gather(np.asarray(Ed)[:, o::2]), pp / pp.sum()))
        u1 = ref_solve(*half[0], *args)[0]
        h2 = ref_solve(*half[1], *args)
        err = lambda v, cov, F: abs(1 + (v @ cov @ v - 2 * (v @ F).real).real / full[8])
        m = t.get_metadata()
        close(m["tdvp_error_cross_validation_ratio"], err(u1, h2[9], h2[10]) / err(full[0], full[9], full[10]), 1e-4, "TDVP error ratio")
        close(m["tdvp_residual_cross_validation_ratio"], np.linalg.norm(h2[3] @ u1 - h2[4]) / np.linalg.norm(h2[4]) / full[1], 1e-4 * max(1, abs(float(m["tdvp_residual_cross_validation_ratio"]))), "residual ratio")
        close(psi.get_parameters(), P0, 0, "parameters with cross validation")
    B.case("cross validation", f)

    for q, x in (("imag", 1j), ("real", 1.)):
        def f():
            psi, S, P0, P1 = build("rbm", "exact", 4)
            ham = Ham()
            t = jv.util.TDVP(S, makeReal=q, rhsPrefactor=0.5j)
            psi.set_parameters(jnp.array(P1))
            s, lp, p = S.sample()
            E, O = ham.get_O_loc(s, psi, lp, 0.), psi.gradients(s)
            Sm, F = t.get_sr_equation(jv.stats.SampledObs(E, p), jv.stats.SampledObs(O, p))
            mE, var, cov, frc, _, _ = ref_moments(gather(O), gather(E), gather(p))
            Q = (lambda z: z.real) if q == "real" else (lambda z: 1j * z.imag)
            close(Sm, Q(cov), 1e-9, "S")
            close(F, -Q(frc), 1e-9, "F")
            Sm, F = t.get_tdvp_equation(jv.stats.SampledObs(E, p), jv.stats.SampledObs(O, p))
            close(Sm, Q(cov), 1e-9, "S of the TDVP equation afterwards")
            close(F, -Q(0.5j * frc), 1e-9, "F of the TDVP equation afterwards")
        B.case("stochastic reconfiguration equation q=%s" % q, f)

    # a complete parametrisation: the update must reproduce Schroedinger's equation / gradient descent exactly
    for kind in ("real time", "imaginary time", "minsr"):
        def f():
            psi = jv.vqs.NQS(TabNet(L), batchSize=3, seed=2)
            psi(jnp.zeros((B.D, 1, L), dtype=np.int32))
            rg = np.random.default_rng(3)
            P = 0.3 * rg.normal(size=int(psi.get_parameters().size))
            psi.set_parameters(jnp.array(P))
            S = jv.sampler.ExactSampler(psi, L)
            ham = Ham()
            if kind == "minsr":
                t = jv.util.MinSR(S, pinvTol=1e-10)
            else:
                t = jv.util.TDVP(S, pinvTol=1e-12, pinvCutoff=1e-10, makeReal="imag" if kind == "real time" else "real", rhsPrefactor=1j if kind == "real time" else 1.)
            u = np.asarray(t(jnp.array(P), 0.4, psi=psi, hamiltonian=ham, intStep=0))
            s, lp, p = S.sample()
            E, O = gather(op.BranchFreeOperator.get_O_loc(ham, s, psi, lp) * 1.4), gather(psi.gradients(s))
            z = O @ u + (1j if kind == "real time" else 1.) * E
            z = z[gather(p) > 1e-12]
            close(z, np.full(z.shape, z[0]), 1e-5, "d/dt log psi = - x Eloc + const")
            mE, var = (gather(p) * E).sum(), (gather(p) * abs(E - (gather(p) * E).sum()) ** 2).sum()
            close(t.get_energy_mean(), mE.real, 1e-8, "energy mean")
            close(t.get_energy_variance(), var, 1e-8, "energy variance")
        B.case("complete parametrisation, %s" % kind, f)

    for sampler in ("exact", "mcmc"):
        def f():
            psi, S, P0, P1 = build("rbm" if sampler == "exact" else "small", sampler, 11)
            ham = Ham()
            t = jv.util.MinSR(S, pinvTol=1.)
            t.set_pinv_tol(1e-4)
            for cnt, (step, tt) in enumerate(((0, 0.3), (None, 0.6), (1, 0.1))):
                kw = {} if step is None else dict(intStep=step)
                if sampler == "mcmc":
                    kw["numSamples"] = 8
                P = P1 * (1 + 0.1 * cnt)
                u = np.asarray(t(jnp.array(P), tt, psi=psi, hamiltonian=ham, **kw))
                close(psi.get_parameters(), P0, 0, "parameters of the wave function after the call")
                s, lp, p = S.drawn
                if sampler == "mcmc" and S.calls[-1] != 8:
                    raise AssertionError("number of samples not passed on")
                O, pg = at(psi, P, s), gather(p)
                psi.set_parameters(jnp.array(P))
                E = gather(op.BranchFreeOperator.get_O_loc(ham, s, psi, psi(s))) * (1 + tt)
                psi.set_parameters(jnp.array(P0))
                mE, var, cov, frc, dO, dE = ref_moments(O, E, pg)
                w = np.sqrt(pg)
                Ob, Eb = w[:, None] * dO, w * dE
                ref = -Ob.conj().T @ np.linalg.pinv(Ob @ Ob.conj().T, rcond=1e-4, hermitian=True) @ Eb
                close(u / max(1, abs(ref).max()), ref / max(1, abs(ref).max()), 1e-6, "update (step %s)" % step)
                if cnt == 0:
                    first = (mE.real, var)
                close(t.get_energy_mean(), first[0], 1e-8, "energy mean")
                close(t.get_energy_variance(), first[1], 1e-8, "energy variance")
        B.case("minsr/%s" % sampler, f)
