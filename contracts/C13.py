"""C13  POVM formalism: informationally complete measurement, faithful translation of states, observables and generators, and their estimators."""


def symbolic(C):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import types
    from engine import harness as H, terms as T, logic, sym
    from engine.terms import lift, ONE, ZERO
    jv = H.load()
    mpi, gd = jv.mpi_wrapper, jv.global_defs
    import jVMC.operator.povm as P
    I = T.IMAG
    C.assume("the angles of the measurement are arbitrary; decimal constants that agree with an algebraic number to rounding error denote that number",
             "jnp.linalg.inv is replaced by exact Gauss-Jordan elimination (contract of the dependency)")
    F_ = "jVMC.operator.povm."

    # ---- matrices of terms
    def mat(x):
        n, m = x.shape
        return [[x.term(i, j) for j in range(m)] for i in range(n)]

    def terms(x):
        """terms of a concrete or symbolic array"""
        if hasattr(x, "term"):
            return x
        x = np.asarray(x)
        return types.SimpleNamespace(shape=x.shape, term=lambda *i: lift(complex(x[i])) if np.iscomplexobj(x) else lift(x[i].item()))

    def mul(a, b):
        return [[sum((a[i][k] * b[k][j] for k in range(len(b))), ZERO) for j in range(len(b[0]))] for i in range(len(a))]

    def add(a, b, s=1):
        return [[x + y * s for x, y in zip(u, v)] for u, v in zip(a, b)]

    def tr(a):
        return sum((a[i][i] for i in range(len(a))), ZERO)

    def dag(a):
        return [[T.conj(a[j][i]) for j in range(len(a))] for i in range(len(a[0]))]

    def kron(a, b):
        n = len(b)
        return [[a[i // n][j // n] * b[i % n][j % n] for j in range(len(a) * n)] for i in range(len(a) * n)]
    num = lambda m: [[lift(x) for x in row] for row in m]
    PX, PY, PZ = num([[0, 1], [1, 0]]), [[ZERO, -I], [I, ZERO]], num([[1, 0], [0, -1]])
    SP, SM = num([[0, 1], [0, 0]]), num([[0, 0], [1, 0]])
    ID = num([[1, 0], [0, 1]])

    def inv_exact(x):
        """exact inverse"""
        t = terms(x)
        n = t.shape[0]
        a = [[t.term(i, j) for j in range(n)] + [ONE if i == j else ZERO for j in range(n)] for i in range(n)]
        for c in range(n):
            p = next((i for i in range(c, n) if not a[i][c].is_zero()), None)
            if p is None:
                raise ZeroDivisionError("singular matrix")
            a[c], a[p] = a[p], a[c]
            f = T.inv(a[c][c])
            a[c] = [y * f for y in a[c]]
            for i in range(n):
                if i != c and not a[i][c].is_zero():
                    g = a[i][c]
                    a[i] = [u - g * v for u, v in zip(a[i], a[c])]
        return sym.from_fun((n, n), np.asarray(x).dtype if not hasattr(x, "term") else x.dtype,
                            lambda i, j: a[i.as_int()][n + j.as_int()] if i.as_int() is not None and j.as_int() is not None else pick2(a, n, i, j))

    def pick2(a, n, i, j):
        return sum((T.eq0(i - x) * T.eq0(j - y) * a[x][n + y] for x in range(n) for y in range(n)), ZERO)

    class Lin:
        def __getattr__(self, k):
            return getattr(jnp.linalg, k)
        inv = staticmethod(inv_exact)

    class JN:
        linalg = Lin()

        def __getattr__(self, k):
            return getattr(jnp, k)

    def angles():
        for nm in ("theta", "phi"):
            T.declare(nm, real=True)
        return sym.inp("theta", (), np.float64), sym.inp("phi", (), np.float64)
    with C.block("measurement operators", [F_ + "get_M", F_ + "get_paulis"], limit=150):
        th, ph = angles()
        M = terms(P.get_M(th, ph, "SIC"))
        C.true("four 2x2 operators", tuple(M.shape) == (4, 2, 2))
        Ms = [[[M.term(a, i, j) for j in range(2)] for i in range(2)] for a in range(4)]
        tot = [[ZERO] * 2] * 2
        for m in Ms:
            tot = add(tot, m)
        C.eqs("completeness", [(tot[i][j], ID[i][j]) for i in range(2) for j in range(2)])
        for a, m in enumerate(Ms):
            d, mm = dag(m), mul(m, m)
            C.eqs("hermitian, half a projector", [(d[i][j], m[i][j]) for i in range(2) for j in range(2)] + [(mm[i][j] * 2, m[i][j]) for i in range(2) for j in range(2)])
            for b, m2 in enumerate(Ms):
                C.eq("symmetric overlaps %d%d" % (a, b), tr(mul(m, m2)), lift(1) * T.inv(lift(4 if a == b else 12)))
        tt, pp = T.app("theta"), T.app("phi")
        n = [T.sin(tt) * T.cos(pp), T.sin(tt) * T.sin(pp), T.cos(tt)]
        want = [[(ID[i][j] + n[0] * PX[i][j] + n[1] * PY[i][j] + n[2] * PZ[i][j]) * T.inv(lift(4)) for j in range(2)] for i in range(2)]
        C.eqs("the first operator points along (theta, phi)", [(Ms[0][i][j], want[i][j]) for i in range(2) for j in range(2)])
    # ---- the translation formulas, arbitrary measurement operators
    T.declare("a", real=False)
    T.declare("ti", real=True)
    T.declare("mr", real=True)
    T.declare("mc", real=False)

    def herm(name):
        return lambda *i: herm_t(name, *i)

    def herm_t(name, *i):
        *p, x, y = i
        x, y = x.as_int(), y.as_int()
        if x == y:
            return T.app("mr", lift(ord(name[0])), *p, lift(x)) if p else T.app("mr", lift(ord(name[0])), lift(x))
        v = T.app("mc", lift(ord(name[0])), *p)
        return v if x < y else T.conj(v)
    for mode, alias in (("unitary", "uni"), ("dissipative", "dis"), ("observable", "obs"), ("imaginary", "imag")):
        with C.block("matrix_to_povm " + mode, [F_ + "matrix_to_povm"], limit=150):
            A = sym.inp("a", (2, 2), np.complex128) if mode == "dissipative" else sym.from_fun((2, 2), np.complex128, herm("A"))
            M = sym.from_fun((4, 2, 2), np.complex128, herm("M"))
            Ti = sym.inp("ti", (4, 4), np.float64)
            At = [[A.term(i, j) for j in range(2)] for i in range(2)]
            Mt = [[[M.term(a, i, j) for j in range(2)] for i in range(2)] for a in range(4)]
            for mname in (mode, alias):
                out = P.matrix_to_povm(A, M, Ti, mode=mname)
                if mode == "observable":
                    C.true("shape", tuple(out.shape) == (4,))
                    for a in range(4):
                        C.eq(mname + " %d" % a, out.term(a), sum((Ti.term(a, b) * tr(mul(Mt[b], At)) for b in range(4)), ZERO))
                    continue
                C.true("shape", tuple(out.shape) == (4, 4))
                for a in range(4):
                    for b in range(4):
                        want = ZERO
                        for c in range(4):
                            if mode == "unitary":
                                x = -I * tr(mul(At, add(mul(Mt[c], Mt[a]), mul(Mt[a], Mt[c]), -1)))
                            elif mode == "imaginary":
                                x = -tr(mul(At, add(mul(Mt[c], Mt[a]), mul(Mt[a], Mt[c]))))
                            else:
                                Ad = dag(At)
                                x = tr(mul(mul(At, Mt[c]), mul(Ad, Mt[a]))) - tr(mul(mul(Ad, At), add(mul(Mt[c], Mt[a]), mul(Mt[a], Mt[c])))) * T.inv(lift(2))
                            want = want + Ti.term(b, c) * x
                        C.eq(mname + " %d%d" % (a, b), out.term(a, b), want)
    # ---- the standard set, arbitrary angles: semantics on an arbitrary distribution
    T.declare("p", real=True)
    T.declare("p2", real=True)
    with C.block("standard operators", [F_ + x for x in ("POVM.set_standard_povm_operators", "get_dissipators", "get_unitaries", "get_observables", "get_1_particle_distributions")], limit=400):
        th, ph = angles()
        with H.patched((P, "jnp", JN())):
            povm = P.POVM({"dim": "1D", "L": 2}, theta=th, phi=ph)
        M, TT, Ti = terms(povm.M), terms(povm.T), terms(povm.T_inv)
        Ms = [[[M.term(a, i, j) for j in range(2)] for i in range(2)] for a in range(4)]
        C.eqs("T is the overlap matrix", [(TT.term(a, b), tr(mul(Ms[a], Ms[b]))) for a in range(4) for b in range(4)])
        pr = mul([[Ti.term(a, b) for b in range(4)] for a in range(4)], [[TT.term(a, b) for b in range(4)] for a in range(4)])
        C.eqs("T_inv is its inverse", [(pr[a][b], ONE if a == b else ZERO) for a in range(4) for b in range(4)])
        p = [T.app("p", lift(a)) for a in range(4)]
        rho = [[sum((p[a] * Ti.term(a, b) * Ms[b][i][j] for a in range(4) for b in range(4)), ZERO) for j in range(2)] for i in range(2)]
        C.eqs("the distribution of the reconstructed state is the distribution", [(tr(mul(Ms[a], rho)), p[a]) for a in range(4)])
        for nm, A in (("X", PX), ("Y", PY), ("Z", PZ)):
            o = terms(povm.observables[nm])
            C.eq("observable " + nm, sum((p[a] * o.term(a) for a in range(4)), ZERO), tr(mul(rho, A)))
            u = terms(povm.unitaries[nm])
            com = add(mul(A, rho), mul(rho, A), -1)
            C.eqs("unitary " + nm, [(sum((u.term(a, b) * p[b] for b in range(4)), ZERO), -I * tr(mul(Ms[a], com))) for a in range(4)])
        for nm, A in (("decayup", SP), ("decaydown", SM), ("dephasing", PZ)):
            u = terms(povm.dissipators[nm])
            Ad = dag(A)
            AA = mul(Ad, A)
            lin = add(mul(mul(A, rho), Ad), [[x * T.inv(lift(2)) for x in row] for row in add(mul(AA, rho), mul(rho, AA))], -1)
            C.eqs("dissipator " + nm, [(sum((u.term(a, b) * p[b] for b in range(4)), ZERO), tr(mul(Ms[a], lin))) for a in range(4)])
        C.true("all registered", set(povm.operators) >= {"X", "Y", "Z", "XX", "YY", "ZZ", "decayup", "decaydown", "dephasing"}, detail=str(sorted(povm.operators)))
        for nm in povm.operators:
            src = povm.unitaries if nm in povm.unitaries else povm.dissipators
            C.struct("operators holds " + nm, povm.operators[nm] is src[nm])
        h = T.inv(lift(2))
        for st, b in (("x_up", (1, 0, 0)), ("x_down", (-1, 0, 0)), ("y_up", (0, 1, 0)), ("y_down", (0, -1, 0)), ("z_up", (0, 0, 1)), ("z_down", (0, 0, -1))):
            pb = terms(P.get_1_particle_distributions(st, povm))
            r0 = [[(ID[i][j] + PX[i][j] * b[0] + PY[i][j] * b[1] + PZ[i][j] * b[2]) * h for j in range(2)] for i in range(2)]
            C.eqs("distribution of " + st, [(pb.term(a), tr(mul(Ms[a], r0))) for a in range(4)])
    with C.block("two-body operators", [F_ + "get_unitaries"], limit=400):
        # caller checked against the contract of matrix_to_povm (arbitrary measurement operators and inverse overlaps)
        M = sym.from_fun((4, 2, 2), np.complex128, herm("M"))
        Ti = sym.inp("ti", (4, 4), np.float64)
        seen = {}

        def rec(A, M_, Ti_, mode="unitary", dtype=None):
            seen[len(seen)] = (A, M_, Ti_, mode)
            return len(seen) - 1
        with H.patched((P, "matrix_to_povm", rec)):
            u = P.get_unitaries(M, Ti)
        Mt = [[[M.term(a, i, j) for j in range(2)] for i in range(2)] for a in range(4)]
        for nm, S in (("XX", PX), ("YY", PY), ("ZZ", PZ)):
            A, M2, T2, mode = seen[u[nm]]
            A, M2, T2 = terms(A), terms(M2), terms(T2)
            C.struct(nm + " is a unitary generator of two sites", mode in ("unitary", "uni") and tuple(A.shape) == (4, 4) and tuple(M2.shape) == (16, 4, 4) and tuple(T2.shape) == (16, 16))
            k = kron(S, S)
            C.eqs(nm + " matrix", [(A.term(i, j), k[i][j]) for i in range(4) for j in range(4)])
            for a in range(4):
                for b in range(4):
                    k = kron(Mt[a], Mt[b])
                    C.eqs("measurement operators of the pair %d%d" % (a, b), [(M2.term(4 * a + b, i, j), k[i][j]) for i in range(4) for j in range(4)])
            C.eqs("inverse overlaps of the pair", [(T2.term(4 * a + b, 4 * c + d), Ti.term(a, c) * Ti.term(b, d)) for a in range(4) for b in range(4) for c in range(4) for d in range(4)])
    # ---- registered operators
    with C.block("registering operators", [F_ + "POVM." + x for x in ("add_unitary", "add_dissipator", "add_imaginary", "_update_operators", "_check_name_availabilty")], limit=100):
        povm = P.POVM({"dim": "1D", "L": 2})
        before = dict(povm.operators)
        om = {}
        for k, f in enumerate(("add_unitary", "add_dissipator", "add_imaginary", "add_unitary", "add_imaginary", "add_dissipator")):
            om["new%d" % k] = sym.inp("om%d" % k, (4, 4), np.float64)
            getattr(povm, f)("new%d" % k, om["new%d" % k])
            ar = [sym.get_arr(povm.operators["new%d" % k]).at(lift(i), lift(j)) for i in range(4) for j in range(4)] if "new%d" % k in povm.operators else None
            C.true("%s makes the name known at once (%d)" % (f, k), ar is not None)
            if ar is not None:
                C.eqs("%s registers the given operator (%d)" % (f, k), [(ar[4 * i + j], T.app("om%d" % k, lift(i), lift(j))) for i in range(4) for j in range(4)])
        C.true("later registrations keep all earlier names", set(povm.operators) == set(before) | set(om), detail=str(sorted(povm.operators)))
        C.struct("later registrations keep all earlier operators", all(povm.operators[k] is v for k, v in {**before, **om}.items()), detail=str(sorted(povm.operators)))
        for nm in ("X", "dephasing", "new1", "new2", "new3"):
            for f in ("add_unitary", "add_dissipator", "add_imaginary"):
                old = dict(povm.operators)
                try:
                    getattr(povm, f)(nm, 0)
                    ok = False
                except ValueError:
                    ok = all(povm.operators[k] is v for k, v in old.items()) and len(old) == len(povm.operators)
                C.true("a name in use is refused: %s %s" % (f, nm), ok)
    # ---- estimators
    for dim in ("1D", "2D"):
        for L in ((2, 3) if dim == "1D" else (2,)):
            with C.block("evaluate_observable %s L=%d" % (dim, L), [F_ + "POVM.evaluate_observable", F_ + "POVM._evaluate_observable"], limit=150):
                povm = P.POVM({"dim": dim, "L": L})
                D, N = sym.sdims("D, N")
                n = L if dim == "1D" else L * L
                sh = (L,) if dim == "1D" else (L, L)
                T.declare("o", real=True)
                T.declare("cfg", int_=True, dom=4)
                o = sym.inp("o", (4,), np.float64)
                if dim == "1D":
                    cfg = sym.from_fun((D, N) + sh, np.int32, lambda d, k, i: T.app("cfg", d, k, i))
                else:
                    cfg = sym.from_fun((D, N) + sh, np.int32, lambda d, k, i, j: T.app("cfg", d, k, i * L + j))
                mean, corr = povm.evaluate_observable(o, cfg)
                d, k = C.idx("d", D), C.idx("k", N)
                val = [sum((T.eq0(T.app("cfg", d, k, lift(i)) - x) * T.app("o", lift(x)) for x in range(4)), ZERO) for i in range(n)]
                C.eq("average over the lattice", mean.term(d, k) * n, sum(val, ZERO))
                C.struct("correlators for all distances", sorted(int(x) for x in corr) == list(range(L)), detail=str(list(corr)))
                for l in range(L):
                    if dim == "1D":
                        want = sum((val[i] * val[(i + l) % L] for i in range(L)), ZERO)
                    else:
                        want = sum((val[i * L + j] * val[((i + l) % L) * L + j] for i in range(L) for j in range(L)), ZERO)
                    C.eq("correlator at distance %d" % l, corr[l].term(d, k) * n, want)
    for given in (False, True):
        with C.block("measure_povm " + ("given samples" if given else "from the sampler"), [F_ + "measure_povm"], limit=150):
            D, N = sym.sdims("D, N")
            for nm in ("q0", "q1", "q2", "w"):
                T.declare(nm, real=True, nonneg=(nm == "w"))
            T.declare("NS", real=True, pos=True)
            ns = sym.inp("NS", (), np.float64)
            cfg, w = sym.inp("cf", (D, N, 2), np.int32, int_=True), sym.inp("w", (D, N), np.float64)
            calls = []
            vals = [sym.inp("q%d" % k, (D, N), np.float64) for k in range(3)]

            class Pv:
                observables = {"O1": "op1"}

                def evaluate_observable(self, op_, s):
                    calls.append((op_, s))
                    return vals[0], {0: vals[1], 1: vals[2]}

            class Sm:
                def sample(self, *a, **k):
                    return cfg, None, w

                def get_last_number_of_samples(self):
                    return ns
            for nm in ("MEAN", "VAR"):
                T.declare(nm, real=True, nonneg=(nm == "VAR"))
            # contracts of the reductions (C02): functions of all data and all weights; the data passed is recorded
            rec = {}

            def red(nm):
                def f(x, pw=None):
                    dd, kk = C.idx("d", D), C.idx("k", N)
                    for q in range(3):
                        if T.is_zero(x.term(dd, kk, ZERO) - vals[q].term(dd, kk)):
                            rec.setdefault((nm, q), []).append(pw)
                            return sym.from_fun((1,), np.float64, lambda i, q=q: T.app(nm, lift(q)))
                    raise sym.Unsupported("reduction of other data")
                return f
            with H.patched((mpi, "global_mean", red("MEAN")), (mpi, "global_variance", red("VAR"))):
                res = P.measure_povm(Pv(), Sm(), **(dict(sampleConfigs=cfg, probs=w, observables={"O1": "op1"}) if given else {}))
            C.struct("the samples are evaluated", all(c[0] == "op1" and c[1] is cfg for c in calls) and len(calls) >= 1)
            C.struct("weighted", all(pw is w for v in rec.values() for pw in v))
            C.struct("reported quantities", set(res) == {"O1", "O1_corr_L0", "O1_corr_L1"}, detail=str(sorted(res)))
            MN = lambda q: T.app("MEAN", lift(q))
            VR = lambda q: T.app("VAR", lift(q))
            for q, nm in enumerate(("O1", "O1_corr_L0", "O1_corr_L1")):
                C.eq(nm + " mean", res[nm]["mean"].term(), MN(q) - (MN(0) * MN(0) if q else ZERO))
                C.eq(nm + " variance", res[nm]["variance"].term(), VR(q))
                C.eq(nm + " error", res[nm]["MC_error"].term(), T.sqrt(VR(q)) * T.inv(T.sqrt(T.app("NS"))))


def battery(B):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import itertools
    import jVMC as jv
    import jVMC.operator.povm as P
    from engine.world import close
    S = np.array([[[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]])
    LO = {"decayup": (S[0] + 1j * S[1]) / 2, "decaydown": (S[0] - 1j * S[1]) / 2, "dephasing": S[2]}

    def lind(L, r):
        return L @ r @ L.conj().T - 0.5 * (L.conj().T @ L @ r + r @ L.conj().T @ L)

    def rho(rg, n):
        a = rg.normal(size=(n, n)) + 1j * rg.normal(size=(n, n))
        a = a @ a.conj().T
        return a / np.trace(a)

    def formalism(th, ph):
        rg = B.rng("C13%s%s" % (th, ph))
        pv = P.POVM({"dim": "1D", "L": 2}, theta=th, phi=ph)
        M, T_, Ti = np.asarray(pv.M), np.asarray(pv.T), np.asarray(pv.T_inv)
        close(M.sum(0), np.eye(2), 1e-12, "sum of the measurement operators")
        for a in range(4):
            close(M[a] @ M[a], M[a] / 2, 1e-12, "measurement operator is half a projector")
            for b in range(4):
                close(np.trace(M[a] @ M[b]), 1 / 4 if a == b else 1 / 12, 1e-12, "overlap")
        v = np.array([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)])
        close(M[0], (np.eye(2) + np.einsum('k,kij->ij', v, S)) / 4, 1e-12, "direction of the first measurement operator")
        close(T_ @ Ti, np.eye(4), 1e-10, "inverse overlap matrix")
        M2 = np.array([np.kron(a, b) for a in M for b in M])
        for _ in range(3):
            r = rho(rg, 2)
            p = np.einsum('aij,ji->a', M, r).real
            close(np.einsum('a,ab,bij->ij', p, Ti, M), r, 1e-10, "state reconstructed from its distribution")
            for k, nm in enumerate("XYZ"):
                close(np.asarray(pv.observables[nm]) @ p, np.trace(r @ S[k]).real, 1e-10, "observable " + nm)
                close(np.asarray(pv.operators[nm]) @ p, np.einsum('aij,ji->a', M, -1j * (S[k] @ r - r @ S[k])).real, 1e-10, "unitary generator " + nm)
            for nm, L in LO.items():
                close(np.asarray(pv.operators[nm]) @ p, np.einsum('aij,ji->a', M, lind(L, r)).real, 1e-10, "dissipator " + nm)
            A = rg.normal(size=(2, 2)) + 1j * rg.normal(size=(2, 2))
            Hm = A + A.conj().T
            for md, ref in (("unitary", -1j * (Hm @ r - r @ Hm)), ("uni", -1j * (Hm @ r - r @ Hm)), ("imaginary", -(Hm @ r + r @ Hm)), ("imag", -(Hm @ r + r @ Hm))):
                close(np.asarray(P.matrix_to_povm(jnp.array(Hm), pv.M, pv.T_inv, mode=md)) @ p, np.einsum('aij,ji->a', M, ref).real, 1e-10, md + " mode")
            for md in ("dissipative", "dis"):
                close(np.asarray(P.matrix_to_povm(jnp.array(A), pv.M, pv.T_inv, mode=md)) @ p, np.einsum('aij,ji->a', M, lind(A, r)).real, 1e-10, md + " mode")
            for md in ("observable", "obs"):
                close(np.asarray(P.matrix_to_povm(jnp.array(Hm), pv.M, pv.T_inv, mode=md)) @ p, np.trace(r @ Hm).real, 1e-10, md + " mode")
            r = rho(rg, 4)
            p = np.einsum('aij,ji->a', M2, r).real
            for k, nm in enumerate(("XX", "YY", "ZZ")):
                h = np.kron(S[k], S[k])
                close(np.asarray(pv.operators[nm]) @ p, np.einsum('aij,ji->a', M2, -1j * (h @ r - r @ h)).real, 1e-10, "unitary generator " + nm)
        for k, nm in enumerate("xyz"):
            for sg, d in ((1, "up"), (-1, "down")):
                r = (np.eye(2) + sg * S[k]) / 2
                close(np.asarray(P.get_1_particle_distributions(nm + "_" + d, pv)), np.einsum('aij,ji->a', M, r).real, 1e-10, "distribution of " + nm + "_" + d)
        return 1
    for th, ph in ((0, 0), (0.7, 0.), (0.3, 1.9), (2.5, -0.6)) + (((1.5, 3.), (-0.4, 5.)) if B.thorough else ()):
        B.case("formalism theta=%s phi=%s" % (th, ph), lambda th=th, ph=ph: formalism(th, ph))

    def names():
        pv = P.POVM({"dim": "1D", "L": 2})
        old = dict(pv.operators)
        add = {}
        for k, f in enumerate(("add_unitary", "add_dissipator", "add_imaginary", "add_unitary", "add_imaginary", "add_dissipator")):
            add["n%d" % k] = jnp.ones((4, 4)) * (k + 1)
            getattr(pv, f)("n%d" % k, add["n%d" % k])
            for nm, v in {**old, **add}.items():
                close(np.asarray(pv.operators[nm]), np.asarray(v), 1e-15, "registered operator %s after %s" % (nm, f))
        assert set(pv.operators) == set(old) | set(add), "registered operators are %s" % sorted(pv.operators)
        for k, v in {**old, **add}.items():
            close(np.asarray(pv.operators[k]), np.asarray(v), 1e-15, "registered operator " + k)
        for nm in ("X", "decayup", "n1", "n2", "n3"):
            for f in ("add_unitary", "add_dissipator", "add_imaginary"):
                try:
                    getattr(pv, f)(nm, jnp.zeros((4, 4)))
                except ValueError:
                    continue
                raise AssertionError("%s accepted the name %s that is already in use" % (f, nm))
    B.case("registering operators", names)

    def meas(dim, L, given, N):
        rg = B.rng("C13m%s%d%d" % (dim, L, N))
        pv = P.POVM({"dim": dim, "L": L}, theta=0.4, phi=1.1)
        sh = (L,) if dim == "1D" else (L, L)
        al = rg.integers(0, 4, size=(B.size, B.D, N) + sh).astype(np.int32)
        w = rg.random(size=(B.size, B.D, N))
        w = w / w.sum()
        cfg, pr = jnp.array(al[B.rank]), jnp.array(w[B.rank])

        class Sm:
            def sample(self, *a, **k):
                return cfg, None, pr

            def get_last_number_of_samples(self):
                return B.size * B.D * N
        obs = {"A": jnp.array(rg.normal(size=4)), "Z": pv.observables["Z"]} if given else None
        res = P.measure_povm(pv, Sm(), **(dict(sampleConfigs=cfg, probs=pr, observables=obs) if given else {}))
        obs = obs or pv.observables
        W = w.reshape(-1)
        for nm, o in obs.items():
            v = np.asarray(o)[al].reshape((-1,) + sh)

            def chk(key, x, off):
                m = (W * x).sum()
                var = (W * (x - m) ** 2).sum()
                close(np.asarray(res[key]["mean"]).reshape(-1), [m - off], 1e-9, key + " mean")
                close(np.asarray(res[key]["variance"]).reshape(-1), [var], 1e-9, key + " variance")
                close(np.asarray(res[key]["MC_error"]).reshape(-1), [np.sqrt(var / len(W))], 1e-9, key + " error")
                return m
            m = chk(nm, v.reshape(len(W), -1).mean(-1), 0)
            for l in range(L):
                chk("%s_corr_L%d" % (nm, l), (v * np.roll(v, l, axis=1)).reshape(len(W), -1).mean(-1), m ** 2)
        return 1
    for dim, L, given, N in (("1D", 3, False, 4), ("1D", 4, True, 3), ("2D", 2, False, 3), ("2D", 3, True, 2)):
        B.case("measurement %s L=%d given=%s" % (dim, L, given), lambda dim=dim, L=L, given=given, N=N: meas(dim, L, given, N))
