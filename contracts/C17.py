"""C17  Output files: recorded time series, checkpoints and data sets read back exactly as written, in every order of operations."""


def symbolic(C):
    import numpy as np
    import builtins
    from engine import harness as H, terms as T, sym
    from engine.terms import lift, ONE, ZERO
    jv = H.load()
    mpi = jv.mpi_wrapper
    import jVMC.util.output_manager as om
    C.assume("contract of h5py: paths address groups and data sets (repeated and trailing slashes ignored); resize keeps existing rows; x[-1] = v overwrites the last row; mode 'w' empties the file, 'a' keeps it, 'r' only reads",
             "values have a shape (arrays); double precision storage treated as exact")
    M_ = "jVMC.util.output_manager.OutputManager."
    app = T.app

    class Len:
        def __init__(self, p):
            self.p = lift(p)

        def __add__(self, o):
            return Len(self.p + (o.p if isinstance(o, Len) else lift(int(o))))
        __radd__ = __add__

        def __sub__(self, o):
            return Len(self.p - (o.p if isinstance(o, Len) else lift(int(o))))

    def P(x):
        if isinstance(x, Len):
            return x.p
        if isinstance(x, (int, float, np.integer, np.floating)):
            return lift(x)
        if isinstance(x, T.Poly):
            return x
        return sym.get_arr(x).at()

    def norm(path):
        return "/" + "/".join(q for q in path.split("/") if q)

    class DS:
        """data set: symbolic length, rows as a list of (row index, content) updates over a symbolic base"""
        def __init__(self, n, tail, base):
            self.n, self.tail, self.base, self.rows = lift(n), tuple(tail), base, []

        def clone(self):
            d = DS(self.n, self.tail, self.base)
            d.rows = list(self.rows)
            return d

        shape = property(lambda s: (Len(s.n),) + s.tail)

        def resize(self, shape, axis=None):
            if axis is not None:
                shape = (shape,) + self.tail
            shape = tuple(shape)
            if tuple(shape[1:]) != self.tail:
                raise ValueError("resize changes the row shape: %s -> %s" % (self.tail, shape[1:]))
            self.n = P(shape[0])

        def idx(self, k):
            if isinstance(k, Len):
                return k.p
            if isinstance(k, tuple):
                if all(x is Ellipsis or x == slice(None) for x in k[1:]):
                    return self.idx(k[0])
            if isinstance(k, (int, np.integer)):
                return self.n + int(k) if k < 0 else lift(int(k))
            raise sym.Unsupported("index %r" % (k,))

        def __getitem__(self, k):
            if k == () or k == slice(None) or k is Ellipsis:
                return sym.from_fun((int(T.show(self.n)),) + self.tail, np.float64, lambda i, *t: self.at(i, *t))
            i = self.idx(k)
            return sym.from_fun(self.tail, np.float64, lambda *t: self.at(i, *t))

        def __setitem__(self, k, v):
            if isinstance(v, (int, float)) or isinstance(v, T.Poly):
                f = lambda *i, v=v: P(v)
                shp = ()
            else:
                a = sym.get_arr(v)
                f = lambda *i, a=a: a.at(*i)
                shp = tuple(a.shape)
            if shp != self.tail and shp != ():
                raise TypeError("shape %s does not fit %s" % (shp, self.tail))
            self.rows.append((self.idx(k), f if shp == self.tail else (lambda *i, f=f: f())))

        def at(self, i, *tail):
            """content of row i (a term) given the updates; later updates win"""
            i = lift(i)
            out = self.base(i, *tail)
            for k, f in self.rows:
                e = T.eq0(i - k)
                out = e * f(*tail) + (ONE - e) * out
            return out

    class FakeFile:
        def __init__(self, store, fn, mode):
            self.s, self.mode = store, mode
            if mode == "w" or fn not in store.files:
                if mode == "r":
                    raise OSError("no file")
                store.files[fn] = {"/": None}
            self.t = store.files[fn]
            store.opened.append((fn, mode))

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def close(self):
            pass

        def sub(self, base):
            return Group(self, base)

        def __contains__(self, p):
            return norm(p) in self.t

        def __getitem__(self, p):
            return self.sub("/")[p]

        def create_group(self, p):
            return self.sub("/").create_group(p)

        def require_group(self, p):
            return self.sub("/").require_group(p)

        def create_dataset(self, p, *a, **k):
            return self.sub("/").create_dataset(p, *a, **k)

    class Group:
        def __init__(self, f, base):
            self.f, self.base = f, norm(base)

        def full(self, p):
            return norm(p) if p.startswith("/") else norm(self.base + "/" + p)

        def __contains__(self, p):
            return self.full(p) in self.f.t

        def __getitem__(self, p):
            q = self.full(p)
            if q not in self.f.t:
                raise KeyError(q)
            v = self.f.t[q]
            return Group(self.f, q) if v is None else v

        def w(self):
            if self.f.mode == "r":
                raise OSError("file opened read-only")

        def parents(self, q):
            ps = q.split("/")[1:-1]
            for k in range(len(ps)):
                self.f.t.setdefault("/" + "/".join(ps[:k + 1]), None)

        def create_group(self, p):
            self.w()
            q = self.full(p)
            if q in self.f.t:
                raise ValueError("name already exists: " + q)
            self.parents(q)
            self.f.t[q] = None
            return Group(self.f, q)

        def require_group(self, p):
            return self[p] if p in self else self.create_group(p)

        def create_dataset(self, p, shape=None, maxshape=None, dtype=None, chunks=None, data=None, **k):
            self.w()
            q = self.full(p)
            if q in self.f.t:
                raise ValueError("name already exists: " + q)
            self.parents(q)
            if data is not None:
                a = sym.get_arr(data)
                d = DS(a.shape[0] if a.shape else 0, a.shape[1:], lambda i, *t: a.at(i, *t) if a.shape else a.at())
                d.scalar = a.shape == ()
            else:
                shape = tuple(shape)
                if maxshape is None or tuple(maxshape)[:1] != (None,):
                    raise ValueError("not extendable")
                d = DS(P(shape[0]), shape[1:], lambda i, *t: T.app("uninit", i, *t))
            self.f.t[q] = d
            return d

        def require_dataset(self, p, *a, **k):
            return self[p] if p in self else self.create_dataset(p, *a, **k)

    class Store:
        def __init__(self):
            self.files, self.opened = {}, []

        def File(self, fn, mode="r"):
            return FakeFile(self, fn, mode)

        def snap(self, fn):
            return {k: (v if v is None else v.clone()) for k, v in self.files[fn].items()}
    n0 = T.var("n", int_=True, nonneg=True)

    def symlen(x):
        return Len(x.n) if isinstance(x, DS) else builtins.len(x)
    ij = lambda tail: [[lift(a) for a in i] for i in np.ndindex(*tail)]

    def old(name, tail, n=n0):
        return DS(n, tail, lambda i, *t: app("old_" + name, i, *t))

    def check(tag, before, after, expect, groups=()):
        """expect: {path: (old length, tail, row terms)}; everything else unchanged"""
        new = [p for p in after if p not in before]
        C.true(tag + "no unexpected entries", set(new) <= set(expect) | set(groups), detail=str(sorted(set(new) - set(expect) - set(groups))))
        C.true(tag + "nothing removed", set(before) <= set(after), detail=str(sorted(set(before) - set(after))))
        i = T.var("i", int_=True, nonneg=True)
        for p, d in after.items():
            if p in expect:
                n, tail, row = expect[p]
                if d is None or not C.true(tag + "%s is a data set with rows of shape %s" % (p, tail), d.tail == tuple(tail), detail=str(d and d.tail)):
                    continue
                C.eq(tag + "%s has one more row" % p, d.n, n + 1)
                for t in ij(tail):
                    C.eq(tag + "%s last row %s" % (p, [T.show(x) for x in t]), d.at(n, *t), row(*t))
                    if p in before:
                        j = n - 1 - i       # any earlier row
                        C.eq(tag + "%s earlier rows %s" % (p, [T.show(x) for x in t]), d.at(j, *t), before[p].at(j, *t))
            elif d is not None and p in before:
                C.eq(tag + "%s unchanged length" % p, d.n, before[p].n)
                for t in ij(d.tail):
                    C.eq(tag + "%s unchanged" % p, d.at(i, *t), before[p].at(i, *t))
    tm = T.var("t")
    tmv = lambda: sym.from_fun((), np.float64, lambda: tm)

    import jax.numpy as jnp

    class NpShim:
        """numpy on the ghost file's data"""
        def __getattr__(self, k):
            return getattr(H.NP, k)

        def array(self, x, *a, **k):
            if isinstance(x, DS):
                return x[()]
            return H.NP.array(x, *a, **k)
        asarray = array

        @staticmethod
        def abs(x):
            return jnp.abs(x)
        absolute = fabs = abs

        @staticmethod
        def argmin(x, *a, **k):
            best = 0
            for j in range(1, x.shape[0]):
                if sym.PATH.decide(T.lt0(x.term(j) - x.term(best))):
                    best = j
            return best

    def world(store, rank=0):
        return H.patched((om, "h5py", store), (om, "len", symlen), (mpi, "rank", rank), (om, "np", NpShim()))

    def val(nm, tail):
        return sym.inp(nm, tail, np.float64)

    def other_content():
        return {"/": None, "/other": None, "/other/observables": None, "/other/observables/times": old("ot", ()), "/other/observables/e": None, "/other/observables/e/mean": old("om", (2,)),
                "/network_checkpoints": None, "/network_checkpoints/times": old("ct", ()), "/error_data": None}
    for group, g in (("/", ""), ("run1", "/run1"), ("a/b", "/a/b")):
        # --- observables
        for have in ("nothing", "group", "times", "observable", "everything", "other length"):
            with C.block("write_observables group=%s file has %s" % (group, have), [M_ + "write_observables", M_ + "set_group", M_ + "__init__"]):
                st = Store()
                c = other_content()
                if g:
                    parts = g.split("/")[1:]
                    for k in range(len(parts)):
                        c["/" + "/".join(parts[:k + 1])] = None
                exp_n = {"times": ZERO, "e/mean": ZERO, "e/err": ZERO, "m/mean": ZERO}
                ob = g + "/observables"
                if have != "nothing":
                    c[ob] = None
                if have not in ("nothing", "group"):
                    c[ob + "/times"] = old("t", ())
                    exp_n["times"] = n0
                if have in ("observable", "everything", "other length"):
                    nn = n0 if have != "other length" else T.var("n2", int_=True, nonneg=True)
                    c[ob + "/e"] = None
                    c[ob + "/e/mean"] = old("em", (2,), nn)
                    exp_n["e/mean"] = nn
                if have == "everything":
                    c[ob + "/e/err"] = old("ee", (2,))
                    c[ob + "/m"] = None
                    c[ob + "/m/mean"] = old("mm", ())
                    c[ob + "/m/spare"] = old("sp", ())
                    exp_n["e/err"] = exp_n["m/mean"] = n0
                st.files["f"] = c
                with world(st):
                    o = om.OutputManager("f", group=group, append=True)
                    before = st.snap("f")
                    o.write_observables(tmv(), e={"mean": val("va", (2,)), "err": val("vb", (2,))}, m={"mean": val("vc", ())})
                    after = st.snap("f")
                rows = {ob + "/times": (exp_n["times"], (), lambda: tm), ob + "/e/mean": (exp_n["e/mean"], (2,), lambda i: app("va", i)),
                        ob + "/e/err": (exp_n["e/err"], (2,), lambda i: app("vb", i)), ob + "/m/mean": (exp_n["m/mean"], (), lambda: app("vc"))}
                check("", {k: v for k, v in c.items()} if False else before, after, rows, {ob, ob + "/e", ob + "/m"})
        # --- metadata and checkpoints
        for what, sub, call, keys in (("write_metadata", "metadata", lambda o: o.write_metadata(tmv(), a=val("va", (3,)), b=val("vb", ())), (("a", (3,), lambda i: app("va", i)), ("b", (), lambda: app("vb")))),
                                      ("write_network_checkpoint", "network_checkpoints", lambda o: o.write_network_checkpoint(tmv(), val("vw", (2, 2))), (("checkpoints", (2, 2), lambda i, j: app("vw", i, j)),))):
            for have in ("nothing", "group", "times", "everything"):
                if not g and sub == "network_checkpoints" and have in ("nothing", "group"):
                    continue
                with C.block("%s group=%s file has %s" % (what, group, have), [M_ + what]):
                    st = Store()
                    c = other_content()
                    for k in range(len(g.split("/")[1:])):
                        c["/" + "/".join(g.split("/")[1:][:k + 1])] = None
                    base = g + "/" + sub
                    n = {}
                    if have != "nothing":
                        c[base] = None
                    if have in ("times", "everything"):
                        c[base + "/times"] = old("t", ())
                        n["times"] = n0
                    if have == "everything":
                        for k, tail, _ in keys:
                            c[base + "/" + k] = old(k, tail)
                            n[k] = n0
                    st.files["f"] = c
                    with world(st):
                        o = om.OutputManager("f", group=group, append=True)
                        before = st.snap("f")
                        call(o)
                        after = st.snap("f")
                    rows = {base + "/times": (n.get("times", ZERO), (), lambda: tm)}
                    for k, tail, row in keys:
                        rows[base + "/" + k] = (n.get(k, ZERO), tail, row)
                    check("", before, after, rows, {base})
    with C.block("groups and files", [M_ + "__init__", M_ + "set_group"]):
        st = Store()
        st.files["f"] = other_content()
        st.files["g"] = other_content()
        with world(st):
            o = om.OutputManager("g", group="new", append=True)
            C.true("appending keeps the file", set(other_content()) <= set(st.files["g"]) and "/new" in st.files["g"])
            C.true("other files untouched", set(st.files["f"]) == set(other_content()))
            o = om.OutputManager("f", group="x", append=False)
            C.true("a fresh file is empty but for the group", set(st.files["f"]) == {"/", "/x"}, detail=str(sorted(st.files["f"])))
            o.write_metadata(tmv(), a=val("va", ()))
            o.set_group("y")
            C.true("changing the group keeps the content", "/x/metadata/a" in st.files["f"] and "/y" in st.files["f"])
            o.write_metadata(tmv(), a=val("va", ()))
            o.set_group("x")
            o.write_metadata(tmv(), a=val("vb", ()))
            C.eq("back in the first group", st.files["f"]["/x/metadata/a"].n, lift(2))
            C.eq("back in the first group: row", st.files["f"]["/x/metadata/a"].at(1), app("vb"))
            C.eq("the other group", st.files["f"]["/y/metadata/a"].n, lift(1))
            o.set_group("/")
            o.write_metadata(tmv(), a=val("va", ()))
            C.true("root group", "/metadata/a" in st.files["f"], detail=str(sorted(st.files["f"])))
            C.eq("root group does not write into the last one", st.files["f"]["/x/metadata/a"].n, lift(2))
    with C.block("other processes do not touch the file", [M_ + x for x in ("set_group", "write_observables", "write_metadata", "write_network_checkpoint", "write_error_data", "write_dataset")]):
        for rank in (1, 5):
            st = Store()
            with world(st, rank):
                o = om.OutputManager("f", group="x")
                o.set_group("y")
                o.write_observables(tmv(), e={"mean": val("va", (2,))})
                o.write_metadata(tmv(), a=val("va", ()))
                o.write_network_checkpoint(tmv(), val("vw", (2,)))
                o.write_error_data("e", val("va", (2,)))
                o.write_dataset("e", val("va", (2,)))
                C.true("rank %d opens no file" % rank, not st.opened, detail=str(st.opened))
    for fn, nm in (("write_error_data", "/error_data/d"), ("write_dataset", "/d"), ("write_dataset grp", "/grp/d")):
        for rank in (0, 2):
            with C.block("%s rank %d" % (fn, rank), [M_ + fn.split()[0]]):
                st = Store()
                st.files["f"] = {k: v for k, v in other_content().items() if k != "/error_data"}
                with world(st, rank):
                    o = om.OutputManager("f", append=True)
                    before = st.snap("f")
                    kw = dict(mpiRank=rank) if rank else {}
                    if "grp" in fn:
                        kw["groupname"] = "grp"
                    getattr(o, fn.split()[0])("d", val("va", (2, 3)), **kw)
                    d = st.files["f"].get(nm)
                if C.true("written", d is not None, detail=str(sorted(st.files["f"]))):
                    C.eqs("content", [(d.at(lift(a), lift(b)), app("va", lift(a), lift(b))) for a in range(2) for b in range(3)])
                    C.true("nothing else", set(st.files["f"]) - set(before) <= {nm, nm.rsplit("/", 1)[0]}, detail=str(set(st.files["f"]) - set(before)))
    # reading a checkpoint back
    cw = "/network_checkpoints"
    for group, g in (("/", ""), ("run1", "/run1")):
        for how in ("last", "index 0", "index 1", "index -2", "time"):
            with C.block("get_network_checkpoint group=%s %s" % (group, how), [M_ + "get_network_checkpoint"]):
                def run():
                    st = Store()
                    c = {"/": None, g + cw: None, g + cw + "/times": DS(3, (), lambda i: app("ct", i)), g + cw + "/checkpoints": DS(3, (2,), lambda i, j: app("cw", i, j))}
                    if g:
                        c[g] = None
                    st.files["f"] = c
                    sent = []

                    class Comm:
                        def bcast(self, x, root=0):
                            sent.append(("time", x, root))
                            return x

                    def bus(x, root=0):
                        sent.append(("weights", x, root))
                        return x
                    kw = {} if how == "last" else dict(idx=int(how.split()[1])) if how != "time" else dict(time=tmv())
                    with world(st), H.patched((mpi, "comm", Comm()), (mpi, "bcast_unknown_size", bus)):
                        o = om.OutputManager("f", group=group, append=True)
                        return o.get_network_checkpoint(**kw), sent
                for (out, sent), cond, fixed in sym.explore(run):
                    t_, w_ = out
                    tt = sym.replace_atoms(P(t_), fixed)
                    ws = [sym.replace_atoms(w_.term(j), fixed) for j in range(2)]
                    hit = [k for k in range(3) if T.is_zero(tt - app("ct", lift(k)))]
                    if not C.true("a recorded time", len(hit) == 1, detail=T.show(tt, 80)):
                        continue
                    k = hit[0]
                    C.eqs("weights recorded at that time (entry %d)" % k, [(ws[j], app("cw", lift(k), lift(j))) for j in range(2)])
                    C.true("process 0 broadcasts time and weights, in this order", [(a, r) for a, _, r in sent] == [("time", 0), ("weights", 0)], detail=str([a for a, *_ in sent]))
                    C.eq("time sent", sym.replace_atoms(P(sent[0][1]), fixed), app("ct", lift(k)))
                    C.eqs("weights sent", [(sym.replace_atoms(sent[1][1].term(j), fixed), app("cw", lift(k), lift(j))) for j in range(2)])
                    if how == "last":
                        C.true("last entry", k == 2)
                    elif how != "time":
                        C.true("requested entry", k == int(how.split()[1]) % 3, detail=str(k))
                    else:
                        neg = any(sym.replace_atoms(T.lt0(tm), fixed) == ONE for _ in (0,))
                        d = lambda j: sym.get_arr(jnp.abs(sym.from_fun((), np.float64, lambda: app("ct", lift(j)) - tm))).at()
                        for j in range(3):
                            if not neg and j != k:
                                C.smt_poly("nearest in time: entry %d not %d" % (k, j), [("le", d(k) - d(j)), ("lt", tm)], cond)
    with C.block("get_network_checkpoint on the other processes", [M_ + "get_network_checkpoint"]):
        st = Store()
        seq = []

        class Comm2:
            def bcast(self, x=None, root=0):
                seq.append(("time", x, root))
                return tmv()

        def bus2(x, root=0):
            seq.append(("weights", x, root))
            return val("vw", (2,))
        with world(st, 3), H.patched((mpi, "comm", Comm2()), (mpi, "bcast_unknown_size", bus2)):
            o = om.OutputManager("f")
            t_, w_ = o.get_network_checkpoint(idx=1)
        C.true("no file access", not st.opened)
        C.true("receives time and weights from process 0, in this order", [(a, r) for a, _, r in seq] == [("time", 0), ("weights", 0)])
        C.eqs("returns what was received", [(P(t_), tm)] + [(w_.term(j), app("vw", lift(j))) for j in range(2)])
    # timings: the clock is symbolic
    with C.block("timings", [M_ + x for x in ("start_timing", "stop_timing", "add_timing", "print_timings")]):
        st = Store()
        ticks = []

        class Clock:
            @staticmethod
            def perf_counter():
                ticks.append(T.var("tick%d" % len(ticks)))
                return ticks[-1]
            time = perf_counter
        out = []
        with world(st), H.patched((om, "time", Clock)):
            o = om.OutputManager("f")
            o.print = lambda s: out.append(s)
            N = {}
            o.start_timing("a"); o.stop_timing("a")
            o.start_timing("b"); o.start_timing("a"); o.stop_timing("a"); o.stop_timing("b")
            o.add_timing("c", T.var("el"))
            tk = ticks
            C.eq("total of two intervals", lift(o.timings["a"]["total"]), tk[1] - tk[0] + tk[4] - tk[3])
            C.eq("newest interval", lift(o.timings["a"]["newest"]), tk[4] - tk[3])
            C.eq("interleaved interval", lift(o.timings["b"]["total"]), tk[5] - tk[2])
            C.eq("added interval", lift(o.timings["c"]["total"]), T.var("el"))
            C.true("counts", [o.timings[x]["count"] for x in "abc"] == [2, 1, 1])
            # printed values: what was recorded since the last print ("%f" of a symbolic time is logged)
            vals = []

            def tofloat(x):
                vals.append(x)
                return 0.5
            cls = type(lift(0))
            old_ = getattr(cls, "__float__", None)
            cls.__float__ = tofloat
            try:
                lines = []
                o.print = lambda s: lines.append((s, len(vals)))
                exp = {"a": tk[1] - tk[0] + tk[4] - tk[3], "b": tk[5] - tk[2], "c": T.var("el")}
                for rnd in range(3):
                    del vals[:], lines[:]
                    o.print_timings()
                    got = {}
                    for k_ in "abc":
                        ls = [n for s, n in lines if "* %s:" % k_ in s]
                        if C.struct("print %d: one line for %s" % (rnd, k_), len(ls) == 1 and len(vals) == 3, detail=str(lines)):
                            got[k_] = vals[ls[0] - 1]
                            C.eq("print %d: time of %s since the last print" % (rnd, k_), lift(got[k_]), exp[k_])
                    o.start_timing("a"); o.stop_timing("a")
                    o.start_timing("a"); o.stop_timing("a")
                    o.add_timing("c", T.var("el2")); o.add_timing("c", T.var("el3"))
                    exp = {"a": ticks[-1] - ticks[-2] + ticks[-3] - ticks[-4], "b": lift(0), "c": T.var("el2") + T.var("el3")}
            finally:
                if old_ is None:
                    del cls.__float__
                else:
                    cls.__float__ = old_


def battery(B):
    import os
    import shutil
    import tempfile
    import numpy as np
    import h5py
    import jax.numpy as jnp
    import jVMC
    from engine.world import close
    OM = jVMC.util.OutputManager if hasattr(jVMC.util, "OutputManager") else jVMC.util.output_manager.OutputManager

    def scratch(f):
        def g():
            d = B.comm.bcast(tempfile.mkdtemp(prefix="vp_c17_") if B.rank == 0 else None)
            try:
                return f(os.path.join(d, "out.h5"))
            finally:
                B.comm.Barrier()
                if B.rank == 0:
                    shutil.rmtree(d)
        return g

    def dump(fn):
        out = {}
        with h5py.File(fn, "r") as f:
            f.visititems(lambda n, o: out.__setitem__("/" + n, None if isinstance(o, h5py.Group) else np.array(o)))
        return out
    for seed in range(12 if B.thorough else 6):
        def f(fn):
            rg = np.random.default_rng(100 + seed)
            model, group, o, n = {}, "", None, 0

            def add(path, v):
                model.setdefault(path, []).append(np.array(v, dtype=float))

            def opened(append):
                nonlocal group
                g = rg.choice(["/", "a", "run", "x/y"])
                if not append:
                    model.clear()
                group = "" if g == "/" else "/" + g
                return OM(fn, group=str(g), append=append)
            o = opened(False)
            hist = ["open " + group]
            for k in range(25):
                c = rg.integers(0, 8)
                t = float(rg.normal())
                if c <= 1:
                    v = {"e": {"mean": rg.normal(size=(2,)), "err": rg.normal(size=(2,))}, "m": {"mean": rg.normal(size=())}}
                    if rg.random() < 0.5:
                        v.pop("m")
                    o.write_observables(t, **{a: {b: (jnp.array(z) if rg.random() < 2 else z) for b, z in d.items()} for a, d in v.items()})
                    add(group + "/observables/times", t)
                    for a, d in v.items():
                        for b, z in d.items():
                            add(group + "/observables/%s/%s" % (a, b), z)
                    hist.append("observables")
                elif c == 2:
                    v = {"snr": rg.normal(size=(3,)), "err": rg.normal(size=())}
                    if rg.random() < 0.5:
                        v.pop(str(rg.choice(["snr", "err"])))
                    o.write_metadata(t, **{a: jnp.array(z) for a, z in v.items()})
                    add(group + "/metadata/times", t)
                    for a, z in v.items():
                        add(group + "/metadata/" + a, z)
                    hist.append("metadata")
                elif c in (3, 4):
                    w = rg.normal(size=(4,))
                    t = abs(t) * 10
                    o.write_network_checkpoint(t, jnp.array(w))
                    add(group + "/network_checkpoints/times", t)
                    add(group + "/network_checkpoints/checkpoints", w)
                    hist.append("checkpoint")
                elif c == 5:
                    g = str(rg.choice(["/", "a", "run", "x/y"]))
                    group = "" if g == "/" else "/" + g
                    o.set_group(g)
                    hist.append("group " + g)
                elif c == 6 and rg.random() < 0.4:
                    o = opened(True)
                    hist.append("reopen " + group)
                elif c == 7 and group + "/network_checkpoints/times" in model:
                    ts = np.array(model[group + "/network_checkpoints/times"])
                    q = abs(float(rg.normal())) * 10 * (rg.random() < 0.8)
                    B.comm.Barrier()
                    a, w = o.get_network_checkpoint(time=q)
                    i = int(np.argmin(abs(ts - q)))
                    close(a, ts[i], 0, "time of the checkpoint nearest to %g after %s" % (q, hist))
                    close(w, model[group + "/network_checkpoints/checkpoints"][i], 0, "weights nearest to %g" % q)
                    for idx in (-1, 0, len(ts) // 2):
                        a, w = o.get_network_checkpoint(idx=idx)
                        close(a, ts[idx], 0, "time of checkpoint %d" % idx)
                        close(w, model[group + "/network_checkpoints/checkpoints"][idx], 0, "weights of checkpoint %d" % idx)
                    n += 4
            B.comm.Barrier()
            if B.rank == 0:
                got = dump(fn)
                tops = {k.split("/")[1] for k, v in got.items() if v is None} - {"a", "run", "x", "observables", "metadata", "network_checkpoints"}
                if tops:
                    raise AssertionError("groups %s appeared after %s" % (sorted(tops), hist))
                got = {k: v for k, v in got.items() if v is not None}
                if set(got) != set(model):
                    raise AssertionError("data sets %s, expected %s after %s" % (sorted(got), sorted(model), hist))
                for k, v in model.items():
                    close(got[k], np.array(v), 0, "%s after %s" % (k, hist))
            return len(hist) + n
        B.case("history %d" % seed, scratch(f))

    def f(fn):
        o = OM(fn)
        o.write_error_data("bad", np.arange(6.).reshape(2, 3))
        o.write_dataset("d", np.arange(4))
        o.write_dataset("d", np.arange(3) + 0.5, groupname="g")
        o.write_dataset("e", np.arange(5) + 0.25, groupname="g")
        B.comm.Barrier()
        if B.rank == 0:
            d = dump(fn)
            close(d["/error_data/bad"], np.arange(6.).reshape(2, 3), 0, "error data")
            close(d["/d"], np.arange(4), 0, "data set")
            close(d["/g/d"], np.arange(3) + 0.5, 0, "data set in a group")
            close(d["/g/e"], np.arange(5) + 0.25, 0, "second data set in a group")
        B.comm.Barrier()
        if B.size > 1:
            o.write_dataset("late", np.arange(3) + 1., mpiRank=1)
            B.comm.Barrier()
            if B.rank == 0:
                close(dump(fn)["/late"], np.arange(3) + 1., 0, "data set of another process")
            B.comm.Barrier()
            o.write_error_data("worse", np.arange(4.) + B.rank, mpiRank=1)
            B.comm.Barrier()
            if B.rank == 0:
                close(dump(fn)["/error_data/worse"], np.arange(4.) + 1., 0, "error data of another process")
    B.case("single data sets", scratch(f))

    def f(fn):
        psi = jVMC.vqs.NQS(jVMC.nets.CpxRBM(numHidden=2), seed=4, batchSize=5)
        s = jnp.array(np.random.default_rng(1).integers(0, 2, (B.D, 3, 4)))
        v = np.asarray(psi(s))
        o = OM(fn)
        o.write_network_checkpoint(0.5, psi.get_parameters())
        P = np.asarray(psi.get_parameters())
        psi.set_parameters(jnp.array(P * 2))
        o.write_network_checkpoint(1.5, psi.get_parameters())
        B.comm.Barrier()
        t, w = o.get_network_checkpoint(0.6)
        psi.set_parameters(jnp.array(w))
        close(psi(s), v, 0, "network restored from the checkpoint")
        close(t, 0.5, 0, "time of the checkpoint")
        t, w = o.get_network_checkpoint(0.)
        close(t, 0.5, 0, "time of the checkpoint nearest to zero")
        close(w, P, 0, "checkpoint nearest to zero")
        o2 = OM(fn, append=True)
        t, w = o2.get_network_checkpoint()
        close(w, 2 * P, 0, "last checkpoint after reopening")
    B.case("restoring a network", scratch(f))

    def f(fn):
        import io
        import contextlib
        import time
        o = OM(fn)
        for k in range(3):
            o.start_timing("a")
            time.sleep(0.01)
            o.stop_timing("a")
        o.add_timing("b", 2.5)
        o.add_timing("b", 1.25)
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            o.print_timings(indent="  ")
            o.add_timing("b", 0.5)
            o.print_timings()
        ls = [l for l in buf.getvalue().splitlines() if "b:" in l]
        if B.rank == 0:
            if [float(l.split(":")[1].strip().rstrip("s")) for l in ls] != [3.75, 0.5]:
                raise AssertionError("printed timings %s" % ls)
            la = [float(l.split(":")[1].strip().rstrip("s")) for l in buf.getvalue().splitlines() if "* a:" in l]
            if len(la) != 2 or la[0] < 0.03 or la[1] != 0:
                raise AssertionError("printed timings of a %s in %s" % (la, buf.getvalue()))
        elif buf.getvalue():
            raise AssertionError("process %d prints" % B.rank)
        o.start_timing("c")
        o.add_timing("c", 1.)
        o.stop_timing("c")
        if not 1. <= o.timings["c"]["total"] < 4.:
            raise AssertionError("recorded timings %s" % o.timings["c"])
        if not 0.03 <= o.timings["a"]["total"] < 5 or o.timings["a"]["count"] != 3:
            raise AssertionError("recorded timings %s" % o.timings["a"])
    B.case("timings", scratch(f))
