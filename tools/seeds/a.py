MPIW = "jVMC/mpi_wrapper.py"
SEEDS = [
dict(id="s01", property="C01", edits=[(MPIW,
 "globNumSamples = (a * spc(1 + numSamples // commSize) + (commSize - a) * spc(numSamples // commSize)) * numChainsPerProcess",
 "globNumSamples = commSize * spc((numSamples + commSize - 1) // commSize) * numChainsPerProcess")],
 needs="several processes, a sample count not divisible by their number, and the remainder crossing a full-chain multiple",
 breaks="the reported global number of samples exceeds the sum of what the processes produce",
 demo='''
import jVMC.mpi_wrapper as mpi
bad = 0
for R in (2, 3, 5):
    for n in range(1, 60):
        for L, c in ((1, 1), (2, 3), (1, 4)):
            tot, glob = 0, set()
            for r in range(R):
                mpi.rank, mpi.commSize = r, R
                s, g = mpi.distribute_sampling(n, localDevices=L, numChainsPerDevice=c)
                tot += s * L * c
                glob.add(g)
            bad += glob != {tot}
print("mismatches", bad)
raise SystemExit(bool(bad))
'''),
dict(id="s02", property="C01", edits=[(MPIW,
 "    else:\n        firstSampleId += globNumSamples % commSize\n",
 "    elif mySamples > 0:\n        firstSampleId += globNumSamples % commSize\n")],
 needs="fewer samples than processes",
 breaks="offsets of processes without work are 0 instead of the end of the range, so the ranges are no longer ordered and contiguous",
 demo='''
import jVMC.mpi_wrapper as mpi
bad = 0
for R in (1, 2, 3, 5, 8):
    for n in range(0, 20):
        pos = 0
        for r in range(R):
            mpi.rank, mpi.commSize = r, R
            s, g = mpi.distribute_sampling(n)
            bad += mpi.first_sample_id() != pos
            pos += s
        bad += pos != n
print("mismatches", bad)
raise SystemExit(bool(bad))
'''),
dict(id="s03", property="C02", devices=2, edits=[(MPIW,
 "    localSum = np.array(_sum_sq_pmapd(data, mean, p)[0])\n",
 "    localSum = np.array(_sum_sq_pmapd(data, jnp.real(mean), p)[0])\n")],
 needs="a complex-valued observable whose mean has an imaginary part",
 breaks="the variance of complex data is computed around the real part of the mean",
 demo='''
import numpy as np, jax.numpy as jnp
import jVMC, jVMC.mpi_wrapper as mpi
g = np.random.default_rng(0)
bad = 0
for shape in ((), (3,)):
    x = g.normal(size=(2, 7) + shape) + 1j * (1.0 + g.normal(size=(2, 7) + shape))
    p = g.random((2, 7)); p /= p.sum()
    P = p.reshape((14,) + (1,) * len(shape)); X = x.reshape((14,) + shape)
    m = (P * X).sum(0)
    v = (P * abs(X - m) ** 2).sum(0)
    bad += not np.allclose(np.asarray(mpi.global_variance(jnp.array(x), jnp.array(p))), v)
print(bad)
raise SystemExit(bool(bad))
'''),
dict(id="s04", property="C03", devices=2, edits=[("jVMC/stats.py",
 "        return mpi.global_sum( _covar_var_helper(self._data, other._data, self._weights)[:, None,...]  ) \\\n                    - jnp.abs(self.covar(other))**2",
 "        return mpi.global_sum( _covar_var_helper(self._data, other._data, self._weights)[:, None,...]  ) \\\n                    - jnp.abs(self.covar())**2")],
 needs="asking for the variance of the covariance with a second observable different from the first",
 breaks="the squared covariance that is subtracted belongs to the wrong pair of observables",
 demo='''
import numpy as np, jax.numpy as jnp
from jVMC.stats import SampledObs
g = np.random.default_rng(0)
a = g.normal(size=(2, 9, 2)) + 1j * g.normal(size=(2, 9, 2)); b = 2.0 * g.normal(size=(2, 9, 2)) + 1j
w = g.random((2, 9)) + .1; w /= w.sum()
A, B, W = a.reshape(18, 2), b.reshape(18, 2), w.ravel()
A = A - W @ A; B = B - W @ B
pr = A.conj()[:, :, None] * B[:, None, :]
cov = np.tensordot(W, pr, axes=1)
exp = np.tensordot(W, abs(pr) ** 2, axes=1) - abs(cov) ** 2
got = np.asarray(SampledObs(jnp.array(a), jnp.array(w)).covar_var(SampledObs(jnp.array(b), jnp.array(w))))
print(abs(got - exp).max())
raise SystemExit(bool(abs(got - exp).max() > 1e-4))
'''),
dict(id="s05", property="C07", edits=[("jVMC/operator/branch_free.py",
 "                    if not op[kRev]['diag']:\n                        isDiagonal = False\n",
 "                    isDiagonal = op[kRev]['diag']\n")],
 needs="a string whose leftmost factor is diagonal but that contains a spin flip, together with another diagonal string",
 breaks="off-diagonal strings are merged into the diagonal and their target configuration is lost",
 demo='''
import numpy as np, jax.numpy as jnp
import jVMC.operator as op
h = op.BranchFreeOperator()
h.add((op.Sz(0),))
h.add(op.Sz(1) * op.Sx(2))
s = np.array([1, 0, 1])
sp, me = h.get_s_primes(jnp.array(s).reshape(1, 1, 3))
got = {}
for c, m in zip(np.asarray(sp).reshape(-1, 3), np.asarray(me).ravel()):
    if m != 0:
        got[tuple(int(x) for x in c)] = got.get(tuple(int(x) for x in c), 0) + complex(m)
print(got)
raise SystemExit(not (set(got) == {(1, 0, 1), (1, 0, 0)} and abs(got[(1, 0, 1)] - 1) < 1e-6 and abs(got[(1, 0, 0)] + 1) < 1e-6))
'''),
dict(id="s06", property="C16", edits=[("jVMC/util/stepper.py",
 "            k01 = f(y, t + 0.5 * dt, **rhsArgs, intStep=3)\n",
 "            k01 = f(y, t + 0.5 * self.dt, **rhsArgs, intStep=3)\n")],
 needs="an explicitly time-dependent right-hand side and at least one rejected step",
 breaks="after a rejected step one stage is evaluated at a time that belongs to the old step size",
 demo='''
import numpy as np, jax.numpy as jnp
from jVMC.util.stepper import AdaptiveHeun
calls = []
def f(y, t, intStep=None):
    calls.append((intStep, float(t)))
    return jnp.cos(20 * t) * 30 * jnp.ones(2) + 0.0 * y
st = AdaptiveHeun(timeStep=0.5, tol=1e-4, maxStep=1.0)
y, dt = st.step(0.0, f, jnp.zeros(2))
last = calls[-5:]
print(last, dt, len(calls))
exp = [0.0, dt, dt / 2, dt / 2, dt]
assert len(calls) > 5
raise SystemExit(not all(abs(a[1] - b) < 1e-12 for a, b in zip(last, exp)))
'''),
]
