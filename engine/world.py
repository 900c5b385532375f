"""Run-time contract battery: the real, unmodified jVMC code is executed on concrete inputs in small 'worlds'
(R MPI ranks = R processes joined by a stub MPI with the contract semantics, D XLA host devices per rank) and every
contract is evaluated.  Bounded by construction; never counted as proved.

child:   python -m engine.world <ID> <tier> <seed> <out.json>      (rank/size/socket from the environment)
"""
import os, sys, json, time, traceback, importlib, threading, tempfile, subprocess, types, shutil, signal

PY = sys.executable
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")

CASE_CPU = 150


class HarnessLimit(Exception):
    """something the battery harness does not provide: the case is skipped, never a violation"""


# ------------------------------------------------------------------ stub MPI (child side)
class Comm:
    def __init__(self, conn, rank, size):
        self.c, self.rank, self.size = conn, rank, size

    def _x(self, op, payload):
        if self.size == 1:
            return [payload]
        self.c.send((op, payload))
        ok, r = self.c.recv()
        if not ok:
            raise RuntimeError("MPI: " + r)
        return r

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def Barrier(self):
        self._x("barrier", None)

    barrier = Barrier

    @staticmethod
    def _np(b):
        import numpy as np
        if isinstance(b, (list, tuple)):
            b = b[0]
        return np.asarray(b)

    def Allreduce(self, s, r, op=None):
        import numpy as np
        a = self._np(s)
        b = r[0] if isinstance(r, (list, tuple)) else r
        if isinstance(b, np.ndarray) and (b.dtype != a.dtype or b.size != a.size):
            raise RuntimeError("MPI: Allreduce buffer mismatch")
        v = self._x("Allreduce", np.array(a))
        b[...] = red(v, op).reshape(b.shape)

    def allreduce(self, s, op=None):
        return red(self._x("allreduce", host(s)), op)

    def Reduce(self, s, r, op=None, root=0):
        v = self._x("Reduce%d" % root, self._np(s))
        if self.rank == root:
            r[...] = red(v, op)

    def reduce(self, s, op=None, root=0):
        v = self._x("reduce%d" % root, host(s))
        return red(v, op) if self.rank == root else None

    def allgather(self, s):
        return list(self._x("allgather", host(s)))

    def Allgather(self, s, r):
        import numpy as np
        v = self._x("Allgather", self._np(s))
        b = r[0] if isinstance(r, (list, tuple)) else r
        b[...] = np.stack([np.asarray(x) for x in v]).reshape(b.shape)

    def gather(self, s, root=0):
        v = self._x("gather%d" % root, host(s))
        return list(v) if self.rank == root else None

    def scatter(self, s, root=0):
        v = self._x("scatter%d" % root, host(s) if self.rank == root else None)
        return v[root][self.rank]

    def bcast(self, s=None, root=0):
        v = self._x("bcast%d" % root, host(s) if self.rank == root else None)
        return v[root]

    def Bcast(self, b, root=0):
        import numpy as np
        a = b[0] if isinstance(b, (list, tuple)) else b
        v = self._x("Bcast%d" % root, (np.array(a) if self.rank == root else None, int(np.asarray(a).size)))
        if any(x[1] != v[root][1] for x in v):
            raise RuntimeError("MPI: Bcast size mismatch")
        if self.rank != root:
            a[...] = np.asarray(v[root][0]).reshape(a.shape)

    def exscan(self, s, op=None):
        v = self._x("exscan", host(s))
        return sum(v[1:self.rank], v[0]) if self.rank else None

    def scan(self, s, op=None):
        v = self._x("scan", host(s))
        return sum(v[1:self.rank + 1], v[0])

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise HarnessLimit("MPI call %s not provided by the stub" % k)


def host(x):
    try:
        import jax
        import numpy as np
        return jax.tree_util.tree_map(lambda y: np.asarray(y) if isinstance(y, jax.Array) else y, x)
    except Exception:
        return x


def red(v, op):
    if op in (None, "SUM"):
        r = v[0]
        for x in v[1:]:
            r = r + x
        return r
    import numpy as np
    if op in ("MAX", "MIN"):
        f = np.maximum if op == "MAX" else np.minimum
        r = v[0]
        for x in v[1:]:
            r = f(r, x)
        return r
    raise HarnessLimit("MPI op %r" % (op,))


def install_fake_mpi():
    rank, size = int(os.environ["VP_RANK"]), int(os.environ["VP_SIZE"])
    conn = None
    if size > 1:
        from multiprocessing.connection import Client
        conn = Client(os.environ["VP_SOCK"], authkey=b"vp")
        conn.send(("hello", rank))
    c = Comm(conn, rank, size)
    m = types.ModuleType("mpi4py")
    m2 = types.ModuleType("mpi4py.MPI")
    m2.SUM, m2.MAX, m2.MIN, m2.DOUBLE = "SUM", "MAX", "MIN", "DOUBLE"
    m2.COMPLEX = m2.DOUBLE_COMPLEX = m2.INT = m2.LONG = m2.FLOAT = "T"
    m2.IN_PLACE = "IN_PLACE"
    m2.COMM_WORLD = c
    m2.Wtime = time.perf_counter
    m.MPI = m2
    sys.modules["mpi4py"] = m
    sys.modules["mpi4py.MPI"] = m2
    return c


# ------------------------------------------------------------------ battery context
class Battery:
    def __init__(self, prop, tier, seed, comm, only=None):
        self.prop, self.tier, self.seed, self.comm, self.only = prop, tier, seed, comm, only
        self.rank, self.size = comm.rank, comm.size
        self.D = int(os.environ.get("VP_D", "1"))
        self.res = []
        self.thorough = tier == "thorough"

    def rng(self, name=""):
        import numpy as np
        import zlib
        return np.random.default_rng([self.seed, zlib.crc32(name.encode())])

    def case(self, name, fn, **desc):
        if self.only and name not in self.only:
            return
        if self.size > 1:
            try:
                self.comm._x("sync", name)
            except RuntimeError as e:
                self.res.append(dict(case=name, ok=False, detail="rank synchronisation: %s" % e))
                return
        t = time.time()

        def stuck(*a):                                 # a call of the code under test that does not return (processor time, so load does not matter)
            raise AssertionError("did not finish within %d s of processor time" % CASE_CPU)
        try:
            signal.signal(signal.SIGPROF, stuck)
            signal.setitimer(signal.ITIMER_PROF, CASE_CPU)
            try:
                r = fn()
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
            self.res.append(dict(case=name, ok=True, t=round(time.time() - t, 2), n=r if isinstance(r, int) else 1))
        except HarnessLimit as e:
            self.res.append(dict(case=name, ok=None, t=round(time.time() - t, 2), detail="skipped: %s" % e))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            loc = " <- ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))
            self.res.append(dict(case=name, ok=False, t=round(time.time() - t, 2), input=str(desc)[:1500],
                                 detail=("%s: %s [%s]" % (type(e).__name__, e, loc))[:2500]))
        if os.environ.get("VP_DEBUG") and self.rank == 0:
            x = self.res[-1]
            print("[R=%d D=%d] %-50s %s %ss %s" % (self.size, self.D, name, x["ok"], x.get("t"), x.get("detail", "")), flush=True)


def close(a, b, tol=1e-8, what="value"):
    import numpy as np
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise AssertionError("%s: shape %s, expected %s" % (what, a.shape, b.shape))
    if a.size == 0:
        return
    if not np.all(np.isfinite(a) == np.isfinite(b)):
        raise AssertionError("%s: non-finite entries: got %s expected %s" % (what, str(a)[:300], str(b)[:300]))
    with np.errstate(all="ignore"):
        err = np.abs(a - b)
        err = np.where(a == b, 0, err)
        bad = ~(err <= tol * (1 + np.abs(b)))
    if np.any(bad):
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        raise AssertionError("%s: got %s, expected %s at index %s (%d of %d entries differ)" % (
            what, a[i], b[i], i, int(bad.sum()), a.size))


def child():
    prop, tier, seed, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    sys.dont_write_bytecode = True
    comm = install_fake_mpi()
    import warnings
    warnings.simplefilter("ignore")
    import jax
    jax.config.update("jax_enable_x64", True)
    sys.path.insert(0, REPO)
    B = Battery(prop, tier, seed, comm, json.loads(os.environ.get("VP_ONLY", "null")))
    try:
        import jVMC
        assert os.path.realpath(jVMC.__file__).startswith(os.path.realpath(REPO) + "/"), jVMC.__file__
        mod = importlib.import_module("contracts." + prop)
        mod.battery(B)
    except Exception as e:
        B.res.append(dict(case="(battery)", ok=False if isinstance(e, ImportError) else None,
                          detail="".join(traceback.format_exception(e))[-1500:]))
    if comm.size > 1:
        try:
            comm._x("sync", "(end)")
        except Exception:
            pass
    with open(out, "w") as f:
        json.dump(B.res, f)


# ------------------------------------------------------------------ parent
def serve(listener, R, stop):
    conns = {}
    try:
        while len(conns) < R:
            c = listener.accept()
            _, r = c.recv()
            conns[r] = c
        pend = {}
        dead = set()
        while len(dead) < R:
            for r, c in conns.items():
                if r in pend or r in dead:
                    continue
                try:
                    if c.poll(0.002 if len(pend) else 0.02):
                        pend[r] = c.recv()
                except (EOFError, OSError):
                    dead.add(r)
            if stop.is_set():
                return
            live = [r for r in range(R) if r not in dead]
            if pend and (dead or all(r in pend for r in live)) and all(r in pend for r in live):
                ops = {r: pend[r][0] for r in live}
                names = set((pend[r][0], pend[r][1] if pend[r][0] == "sync" else None) for r in live)
                if not dead and len(names) == 1:
                    vals = [pend[r][1] for r in range(R)]
                    for r in live:
                        conns[r].send((True, vals))
                    pend.clear()
                else:
                    # collective mismatch: error to everybody who is not waiting at a case boundary
                    tgt = [r for r in live if ops[r] != "sync"] or live
                    for r in tgt:
                        conns[r].send((False, "ranks disagree on the collective call: %s" % ops))
                        pend.pop(r)
    except Exception:
        return


def run_world(prop, tier, seed, R=1, D=1, only=None, timeout=600):
    """run contracts.<prop>.battery in a world of R ranks x D devices; returns merged case results."""
    tmp = tempfile.mkdtemp(prefix="vpw_")
    try:
        env = dict(os.environ)
        env.update(PIP_NO_INDEX="1", JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0",
                   XLA_FLAGS="--xla_force_host_platform_device_count=%d --xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1" % D,
                   VP_SIZE=str(R), VP_D=str(D), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TMPDIR=tmp,
                   OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
                   PYTHONPATH=ROOT, VP_ONLY=json.dumps(only))
        stop = threading.Event()
        if R > 1:
            from multiprocessing.connection import Listener
            sock = os.path.join(tmp, "s")
            lis = Listener(sock, authkey=b"vp")
            env["VP_SOCK"] = sock
            th = threading.Thread(target=serve, args=(lis, R, stop), daemon=True)
            th.start()
        ps = []
        for r in range(R):
            e = dict(env)
            e["VP_RANK"] = str(r)
            ps.append((r, subprocess.Popen([PY, "-W", "ignore", "-m", "engine.world", prop, tier, str(seed), os.path.join(tmp, "o%d" % r)],
                                           cwd=tmp, env=e, stdout=None if os.environ.get("VP_DEBUG") else subprocess.DEVNULL,
                                           stderr=open(os.path.join(tmp, "e%d" % r), "w"), start_new_session=True)))
        out = []
        t_end = time.time() + timeout
        for r, p in ps:
            try:
                p.wait(timeout=max(1, t_end - time.time()))
            except subprocess.TimeoutExpired:
                pass
        for r, p in ps:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
                out.append(dict(case="(world)", ok=None, detail="time limit", rank=r))
            f = os.path.join(tmp, "o%d" % r)
            if os.path.exists(f):
                for x in json.load(open(f)):
                    x["rank"] = r
                    out.append(x)
            else:
                err = open(os.path.join(tmp, "e%d" % r)).read()[-800:]
                out.append(dict(case="(world)", ok=None, rank=r, detail="no result, exit %s: %s" % (p.returncode, err)))
        stop.set()
        if R > 1:
            lis.close()
        for x in out:
            x["world"] = dict(R=R, D=D)
        return out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    child()
