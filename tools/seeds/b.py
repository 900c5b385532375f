MPIW, SAM, VQS, ST, BASE, POV, SYMM, R2 = ["jVMC/" + x for x in ("mpi_wrapper.py", "sampler.py", "vqs.py", "stats.py", "operator/base.py", "operator/povm.py", "util/symmetries.py", "nets/rnn2d_general.py")]
SEEDS = [
dict(id="s07", property="C02", edits=[(MPIW, "    comm.Bcast([buf, dim, MPI.DOUBLE], root=root)\n", "    comm.Bcast([buf, dim, MPI.DOUBLE], root=0)\n")],
 needs="several processes and a broadcast whose root is not process 0",
 breaks="the size comes from the requested root, the contents from process 0",
 demo='''
import numpy as np
import jVMC.mpi_wrapper as mpi
class Comm:
    def __init__(self): self.sent = {}
    def bcast(self, x, root=0):
        if mpi.rank == root: self.sent["size"] = x
        return self.sent["size"]
    def Bcast(self, b, root=0):
        if mpi.rank == root: self.sent[root] = np.array(b[0])
        elif root in self.sent: b[0][...] = self.sent[root]
mpi.comm, mpi.commSize = Comm(), 3
x = np.arange(5.) + 1
out = []
for r in (2, 0, 1):
    mpi.rank = r
    out.append(mpi.bcast_unknown_size(x if r == 2 else None, root=2))
ok = all(np.array_equal(o, x) for o in out)
print(out)
raise SystemExit(not ok)
'''),
dict(id="s08", property="C03", edits=[(ST, ")**2 / w[...,None,None],", ")**2 * w.shape[0],")],
 needs="samples with non-uniform weights (or several devices)",
 breaks="the variance of the covariance treats all samples as equally probable",
 demo='''
import numpy as np, jax.numpy as jnp
from jVMC.stats import SampledObs
g = np.random.default_rng(1)
x = g.normal(size=(1, 9, 2)) + 1j * g.normal(size=(1, 9, 2)); y = g.normal(size=(1, 9, 3))
w = g.random((1, 9)) + 0.1; w /= w.sum()
a, b = SampledObs(jnp.array(x), jnp.array(w)), SampledObs(jnp.array(y), jnp.array(w))
X, Y, W = x[0] - (w[0][:, None] * x[0]).sum(0), y[0] - (w[0][:, None] * y[0]).sum(0), w[0]
c = np.conj(X)[:, :, None] * Y[:, None, :]
m = np.einsum('n,nij->ij', W, c)
v = np.einsum('n,nij->ij', W, abs(c - m) ** 2)
raise SystemExit(not np.allclose(np.asarray(a.covar_var(b)), v))
'''),
dict(id="s09", property="C04", devices=3, edits=[(SAM, "            out = jax.lax.cond(c[1] < c[0], lambda x: x[0], lambda x: x[1], (x, 0.))", "            out = jax.lax.cond(c[1] <= c[0], lambda x: x[0], lambda x: x[1], (x, 0.))")],
 needs="several devices and a number of basis states that is not a multiple of the number of devices",
 breaks="a padding state gets a non-zero probability, so a configuration is counted twice",
 demo='''
import numpy as np, jax
import jVMC
psi = jVMC.vqs.NQS(jVMC.nets.CpxRBM(numHidden=2, bias=True))
s = jVMC.sampler.ExactSampler(psi, (4,))
c, l, p = s.sample()
c, p = np.asarray(c).reshape(-1, 4), np.asarray(p).reshape(-1)
tot = {}
for a, b in zip(c, p):
    tot.setdefault(tuple(a), []).append(b)
bad = any(sum(x > 0 for x in v) != 1 for v in tot.values()) or len(tot) != 16
print(bad)
raise SystemExit(bad)
'''),
dict(id="s10", property="C05", edits=[(SAM, "        return samples, self.net(samples), jnp.ones(samples.shape[:2]) / self.globNumSamples", "        return samples, self.net(samples), jnp.ones(samples.shape[:2]) / (samples.shape[0] * samples.shape[1] * mpi.commSize)")],
 needs="direct sampling with several processes and a number of samples that is not a multiple of their number",
 breaks="the weights of the direct samples do not add up to one over all processes",
 demo='''
import numpy as np, jax
import jVMC, jVMC.mpi_wrapper as mpi
psi = jVMC.vqs.NQS(jVMC.nets.RNN1DGeneral(L=3, hiddenSize=2))
tot, n = 0., 0
for r in range(2):
    mpi.rank, mpi.commSize = r, 2
    S = jVMC.sampler.MCSampler(psi, (3,), 5)
    c, l, p = S.sample(numSamples=5)
    tot += abs(np.asarray(p) - 0.2).max()
print(tot)
raise SystemExit(bool(tot > 1e-9))
'''),
dict(id="s11", property="C06", edits=[(SAM, "            lambda x: jax.vmap(lambda y: self.mu * jnp.real(net(netParams, y)), in_axes=(0,))(x)\n", "            lambda x: jax.vmap(lambda y: jnp.real(net(netParams, y)) / self.logProbFactor, in_axes=(0,))(x)\n")],
 needs="importance sampling (mu different from 1/logProbFactor) and the first update of a sampling call",
 breaks="the first proposals of every call are accepted with the wrong probability",
 demo='''
import numpy as np, jax, jax.numpy as jnp
import jVMC
psi = jVMC.vqs.NQS(jVMC.nets.CpxRBM(numHidden=2, bias=True))
S = jVMC.sampler.MCSampler(psi, (4,), 3, updateProposer=lambda k, s, a: 1 - s, numChains=1, mu=0.5, thermalizationSweeps=0, sweepSteps=0)
s0 = jnp.array([[[1, 0, 1, 1]]])
psi(s0)
psi.set_parameters(3. * jnp.arange(1, len(psi.get_parameters()) + 1) / len(psi.get_parameters()))
S.states = s0
S.sample(numSamples=1)
want = 0.5 * np.real(np.asarray(psi(s0)))
print(S.logAccProb, want)
raise SystemExit(not np.allclose(np.asarray(S.logAccProb), want))
'''),
dict(id="s12", property="C08", devices=2, edits=[(BASE, "        self.matEl = self._set_zero_to_zero_pmapd(self.matEl, idx[..., :jnp.max(self.numNonzero)], self.numNonzero)\n        self.sp = self._array_idx_pmapd(self.sp, idx[..., :jnp.max(self.numNonzero)])",
  "        maxNonzero = jnp.max(self.numNonzero[0])\n        self.matEl = self._set_zero_to_zero_pmapd(self.matEl, idx[..., :maxNonzero], self.numNonzero)\n        self.sp = self._array_idx_pmapd(self.sp, idx[..., :maxNonzero])")],
 needs="several devices, the configurations on the first one having fewer connected configurations than those on another",
 breaks="connected configurations are dropped on the other devices",
 demo='''
import numpy as np, jax, jax.numpy as jnp
import jVMC, jVMC.operator as op
h = op.BranchFreeOperator()
for i in range(3):
    h.add(op.scal_opstr(1. + i, (op.Sp(i), op.Sm((i + 1) % 3))))
s = jnp.array([[[0, 0, 0]], [[1, 0, 0]]], dtype=np.int32)
h2 = op.BranchFreeOperator()
for i in range(3):
    h2.add(op.scal_opstr(1. + i, (op.Sp(i), op.Sm((i + 1) % 3))))
tot = []
for k in (0, 1):
    sp, me = h.get_s_primes(s if k == 0 else s[::-1])
    tot.append(np.abs(np.asarray(me)).sum())
print(tot)
raise SystemExit(not (np.isclose(tot[0], tot[1]) and tot[0] > 0))
'''),
dict(id="s13", property="C09", edits=[(VQS, "/grads_r.shape[0], 0.0, abs_tol=1e-14):", "/grads_r.shape[0], 0.0, abs_tol=1e-5):")],
 needs="a network with complex parameters whose non-holomorphic part is small at the first configuration",
 breaks="such networks are treated as holomorphic and their gradients are wrong",
 demo='''
import numpy as np, jax, jax.numpy as jnp, flax.linen as nn
import jVMC
class Net(nn.Module):
    @nn.compact
    def __call__(self, s):
        a = self.param("a", lambda k, sh: jnp.ones(sh, dtype=np.complex128) * (0.3 + 0.2j), (3,))
        x = 2. * s - 1
        return jnp.dot(a, x) + (jnp.sum(s) + 1e-7) * jnp.sum(jnp.conj(a) * x)
psi = jVMC.vqs.NQS(Net())
s = jnp.array([[[0, 0, 0], [1, 0, 1]]])
psi(s)
g = np.asarray(psi.gradients(s))
P = psi.get_parameters()
num = []
for k in range(len(P)):
    e = np.zeros(len(P)); e[k] = 1e-4
    psi.set_parameters(P + e); u = np.asarray(psi(s))
    psi.set_parameters(P - e); v = np.asarray(psi(s))
    num.append((u - v) / 2e-4)
num = np.moveaxis(np.array(num), 0, -1)
raise SystemExit(not np.allclose(g, num, atol=1e-6))
'''),
dict(id="s14", property="C10", edits=[(VQS, "            paramOut = jnp.concatenate([jnp.concatenate([p.ravel().real, p.ravel().imag]) for p in tree_flatten(self.params)[0]])\n", "            if getattr(self, \"_paramVec\", None) is None:\n                self._paramVec = jnp.concatenate([jnp.concatenate([p.ravel().real, p.ravel().imag]) for p in tree_flatten(self.params)[0]])\n            paramOut = self._paramVec\n"),
  (VQS, "        # Update model parameters\n        if isinstance(P,", "        self._paramVec = None\n        # Update model parameters\n        if isinstance(P,")],
 needs="a network with complex parameters: get_parameters, then update_parameters, then get_parameters again",
 breaks="the parameter vector is cached and update_parameters does not invalidate it",
 demo='''
import numpy as np, jax, jax.numpy as jnp
import jVMC
psi = jVMC.vqs.NQS(jVMC.nets.CpxRBM(numHidden=2, bias=True))
psi(jnp.array([[[1, 0, 1, 1]]]))
P = np.asarray(psi.get_parameters())
psi.update_parameters(0.5 * jnp.ones(P.size))
raise SystemExit(int(abs(np.asarray(psi.get_parameters()) - P - 0.5).max() > 1e-9))
'''),
dict(id="s15", property="C11", edits=[(SYMM, "                translation[\"factor\"].append(kwargs[\"translation\"][\"factor\"]**(x + y))", "                translation[\"factor\"].append(kwargs[\"translation\"][\"factor\"]**(x * L + y))")],
 needs="a two-dimensional lattice with a translation prefactor other than one",
 breaks="the prefactor of a two-dimensional translation is not the product of those of its unit translations",
 demo='''
import numpy as np
import jVMC
bad = False
for L in (2, 4):
    o = jVMC.util.symmetries.get_orbit_2D_square(L, "translation", translation_factor=-1.)
    for m, f in zip(np.asarray(o.orbit), np.asarray(o.factor)):
        j = int(np.argmax(m[0])); x, y = j // L, j % L
        bad |= not np.isclose(f, (-1.) ** (x + y))
print(bad)
raise SystemExit(bool(bad))
'''),
dict(id="s16", property="C12", edits=[(R2, "            (jax.nn.one_hot(x, self.inputDim, dtype=np.int32), direction)\n", "            (jax.nn.one_hot(x, self.inputDim, dtype=np.int32), direction[:self.L])\n"),
   (R2, "        configLine = self.reverse_line(out[1], x[1])\n", "        configLine = jnp.where(self.inputDim == 2, self.reverse_line(out[1], x[1]), out[1])\n")],
 needs="a two-dimensional autoregressive network with more than two local states",
 breaks="odd rows are sampled in reversed order for local dimension larger than two",
 demo='''
import numpy as np, jax, jax.numpy as jnp
import jVMC
net = jVMC.nets.RNN2DGeneral(L=2, hiddenSize=2, inputDim=3, realValuedOutput=True, logProbFactor=1.0, initScale=4.0)
p = net.init(jax.random.PRNGKey(0), jnp.zeros((2, 2), dtype=np.int32))
p = jax.tree_util.tree_map(lambda x: x + 1.5 * jax.random.normal(jax.random.PRNGKey(x.size), x.shape), p)
N = 40000
s = np.asarray(net.apply(p, N, jax.random.PRNGKey(3), method=net.sample)).reshape(N, -1)
conf = np.array(list(np.ndindex(3, 3, 3, 3)))
q = np.exp(np.asarray(jax.vmap(lambda c: net.apply(p, c.reshape(2, 2)))(jnp.array(conf))))
h = np.bincount(s @ np.array([27, 9, 3, 1]), minlength=81) / N
d = np.abs(h - q).sum()
print(q.sum(), d)
raise SystemExit(not (abs(q.sum() - 1) < 1e-6 and d < 0.1))
'''),
dict(id="s17", property="C13", edits=[(POV, "                                  - 0.5 * jnp.einsum('ij, jk, akl, bc, cli -> ab', jnp.conj(A).T, A, M, T_inv, M)),", "                                  - 0.5 * jnp.einsum('ij, jk, akl, bc, cli -> ab', A.T, A, M, T_inv, M)),")],
 needs="a jump operator with complex matrix elements",
 breaks="the dissipative generator does not move the distribution as the Lindblad equation moves the state",
 demo='''
import numpy as np, jax.numpy as jnp
import jVMC.operator.povm as P
pv = P.POVM({"dim": "1D", "L": 2})
A = np.array([[0.2, 1j], [0.5 - 0.3j, -0.1]])
r = np.array([[0.6, 0.2 - 0.1j], [0.2 + 0.1j, 0.4]])
M = np.asarray(pv.M)
p = np.einsum('aij,ji->a', M, r).real
d = A @ r @ A.conj().T - 0.5 * (A.conj().T @ A @ r + r @ A.conj().T @ A)
got = np.asarray(P.matrix_to_povm(jnp.array(A), pv.M, pv.T_inv, mode="dis")) @ p
raise SystemExit(not np.allclose(got, np.einsum('aij,ji->a', M, d).real))
'''),
dict(id="s18", property="C14", edits=[(POV, "[[op for op in ops_ordered[_n] if op[\"sites\"] == indices[:_n+1]]", "[[op for op in ops_ordered[_n] if set(op[\"sites\"]) == set(indices[:_n+1])]")],
 needs="two three-body terms that start at the same site and list the other two sites in different order",
 breaks="the terms are merged although their matrices refer to different site orders",
 demo='''
import numpy as np, jax.numpy as jnp
import jVMC.operator as op
pv = op.POVM({"dim": "1D", "L": 3})
g = np.random.default_rng(0)
A, Bm = g.normal(size=(64, 64)), g.normal(size=(64, 64))
pv.add_unitary("A", jnp.array(A)); pv.add_unitary("B", jnp.array(Bm))
h = op.POVMOperator(pv)
h.add({"name": "A", "strength": 1., "sites": (0, 1, 2)})
h.add({"name": "B", "strength": 1., "sites": (0, 2, 1)})
s = np.array([1, 2, 3])
sp, me = h.get_s_primes(jnp.array(s).reshape(1, 1, 3))
got = np.zeros((4, 4, 4))
for c, m in zip(np.asarray(sp).reshape(-1, 3), np.asarray(me).reshape(-1)):
    got[tuple(c)] += m
want = A[1 * 16 + 2 * 4 + 3].reshape(4, 4, 4) + Bm[1 * 16 + 3 * 4 + 2].reshape(4, 4, 4).transpose(0, 2, 1)
raise SystemExit(not np.allclose(got, want))
'''),
dict(id="s19", property="C20", edits=[(SAM, "        tmpKey2 = tmpKeys[2 * global_defs.device_count():]\n", "        tmpKey2 = tmpKeys[1:1 + global_defs.device_count()]\n")],
 needs="direct sampling of a symmetrised generator: the random symmetry operation and the sample itself share a key",
 breaks="the draws of the samples and of the symmetry operations use the same random stream",
 demo='''
import numpy as np, jax, jax.numpy as jnp
import jVMC
o = jVMC.util.symmetries.get_orbit_1D(4, "translation")
psi = jVMC.vqs.NQS(jVMC.nets.RNN1DGeneral(L=4, hiddenSize=2), orbit=o)
S = jVMC.sampler.MCSampler(psi, (4,), 5)
if not psi.is_generator:
    class Gen: pass
    psi._isGenerator = True
used = []
psi.sample = lambda n, k, parameters=None: (used.append(np.asarray(k)), jnp.zeros((1, n, 4), dtype=np.int32))[1]
rnd = S._randomize_samples
orig = jVMC.global_defs.pmap_for_my_devices
def f(samples, key, orbit):
    used.append(np.asarray(key)); return samples
S._randomize_samples_jitd = {str(n): f for n in range(50)}
S.orbit = o.orbit
S.sample(numSamples=3)
used.append(np.asarray(S.key))
ks = [tuple(x) for u in used for x in u.reshape(-1, 2)]
print(ks)
raise SystemExit(len(set(ks)) != len(ks) or len(used) < 3)
'''),
]
