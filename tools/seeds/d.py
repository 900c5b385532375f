ST, SA, V, BF, SY, R2 = ["jVMC/" + x for x in ("stats.py", "sampler.py", "vqs.py", "operator/branch_free.py", "util/symmetries.py", "nets/rnn2d_general.py")]
HEAD = '''
import jax, jax.numpy as jnp, numpy as np, jVMC
import flax.linen as nn
D = jVMC.global_defs.device_count()
'''
SEEDS = [
dict(id="s32", property="C09", edits=[(V, "return jnp.concatenate([p.ravel() for p in tree_flatten(t)[0]])\n            grads_r", "return max(tree_flatten(t)[0], key=lambda p: p.size).ravel()\n            grads_r")],
 needs="a network with complex parameters that is holomorphic in its largest parameter array but not in a smaller one", breaks="the network is taken for holomorphic and the gradients with respect to the imaginary parts of the parameters are wrong",
 demo=HEAD + '''
class Net(nn.Module):
    @nn.compact
    def __call__(self, s):
        ini = lambda k, sh: 0.3 * (jax.random.normal(k, sh) + 1j * jax.random.normal(jax.random.split(k)[0], sh))
        a = self.param("a", ini, (2, 4)); b = self.param("b", ini, (4,))
        x = 2. * s - 1
        return jnp.sum(jnp.dot(a, x) ** 2) + 0.4 * jnp.conj(jnp.dot(b, x))
psi = jVMC.vqs.NQS(Net(), batchSize=4)
s = jnp.array(np.random.default_rng(0).integers(0, 2, (D, 3, 4)), dtype=np.int32)
psi(s)
p = np.asarray(psi.get_parameters()); G = np.asarray(psi.gradients(s))
err = 0.
for k in range(p.size):
    q = p.copy(); q[k] += 1e-5; psi.set_parameters(jnp.array(q)); a = np.asarray(psi(s))
    q = p.copy(); q[k] -= 1e-5; psi.set_parameters(jnp.array(q)); b = np.asarray(psi(s))
    err = max(err, np.abs((a - b) / 2e-5 - G[..., k]).max())
print(err)
raise SystemExit(not err < 1e-6)
'''),
dict(id="s33", property="C03", edits=[(ST, "        if params is not None:\n            observations = self._estimator(params, self._configs)\n            self._compute_data_and_mean(observations)\n\n        return self._mean",
   "        if params is not None:\n            observations = self._estimator(params, self._configs)\n            if len(observations.shape) == 2:\n                observations = observations[..., None]\n            self._mean = mpi.global_sum(_mean_helper(observations, self._weights)[:, None, ...])\n\n        return self._mean")],
 needs="an estimator with parameters whose mean is asked for at other parameters, and then the variance or covariance", breaks="variances, covariances and the mean belong to different parameters",
 demo=HEAD + '''
rng = np.random.default_rng(1)
x = rng.normal(size=(D, 6)); w = rng.random((D, 6)); w /= w.sum()
o = jVMC.stats.SampledObs(jnp.array(x), jnp.array(w), estimator=lambda p, s: jnp.sin(p["a"][0] * s), params={"a": jnp.array([0.3])})
m = np.asarray(o.mean({"a": jnp.array([1.7])})).ravel()[0]
v = np.asarray(o.var()).ravel()[0]
y = np.sin(1.7 * x); e = np.sum(w * y)
d = max(abs(m - e), abs(v - np.sum(w * (y - e) ** 2)))
print(d)
raise SystemExit(not d < 1e-8)
'''),
dict(id="s34", property="C06", edits=[(SA, "net, _ = self.net.get_sampler_net()\n        self.logAccProb", "net, netParams = self.net.get_sampler_net()\n        self.logAccProb"), ],
 needs="sampling with explicitly given parameters", breaks="the chains start with the log-probabilities of the network's own parameters, so the first update of every chain is accepted with a wrong probability",
 demo=HEAD + '''
class Net(nn.Module):
    @nn.compact
    def __call__(self, s):
        return jnp.dot(self.param("w", nn.initializers.zeros, (2,)), s)
psi = jVMC.vqs.NQS(Net(), batchSize=4)
psi(jnp.zeros((D, 1, 2), dtype=np.int32))
S = jVMC.sampler.MCSampler(psi, (2,), jax.random.PRNGKey(3), updateProposer=lambda key, s, arg: 1 - s, numChains=8, numSamples=8 * D, sweepSteps=1, thermalizationSweeps=0)
S.states = jnp.ones((D, 8, 2), dtype=np.int32)
c = np.asarray(S.sample(parameters=jnp.array([15., 15.]))[0])
print(c.mean())
raise SystemExit(not c.all())
'''),
dict(id="s35", property="C10", edits=[(V, '        ps = unfreeze(self.parameters)\n        ps["params"] = unfreeze(val)\n', '        ps = {**{k: v for k, v in unfreeze(self.parameters).items() if k == "params"}, "params": unfreeze(val)}\n')],
 needs="a network with a further collection of variables next to the parameters", breaks="setting the parameters discards the other variables of the network, which then can no longer be evaluated",
 demo=HEAD + '''
class Net(nn.Module):
    @nn.compact
    def __call__(self, s):
        w = self.param("w", nn.initializers.normal(0.3), (4,))
        v = self.variable("consts", "offset", lambda: jnp.array([0.7, -0.4, 0.2, 0.9]))
        return jnp.dot(w + v.value, 2. * s - 1) + 0j
psi = jVMC.vqs.NQS(Net(), batchSize=4)
s = np.random.default_rng(0).integers(0, 2, (D, 3, 4)).astype(np.int32)
psi(jnp.array(s))
P = np.array([0.1, 0.5, -0.2, 0.3])
psi.set_parameters(jnp.array(P))
d = np.abs(np.asarray(psi(jnp.array(s))) - (2. * s - 1) @ (P + np.array([0.7, -0.4, 0.2, 0.9]))).max()
print(d)
raise SystemExit(not d < 1e-8)
'''),
dict(id="s36", property="C04", edits=[(SA, "        nrm = mpi.global_sum(p)\n        p = self._normalize_pmapd(p, nrm)\n", "        nrm = mpi.global_sum(p)\n        if abs(nrm - 1.) > 1e-3:\n            p = self._normalize_pmapd(p, nrm)\n")],
 needs="parameters close to those of the preceding call, so that the running norm is nearly one", breaks="the probabilities of the exact sampler are not normalised after a small parameter change",
 demo=HEAD + '''
psi = jVMC.vqs.NQS(jVMC.nets.CpxRBM(numHidden=2, bias=True), batchSize=20)
S = jVMC.sampler.ExactSampler(psi, (3,))
worst = 0.
P = 30 * np.asarray(psi.get_parameters())
for e in (0., 1e-5, 1e-4, 3e-4, 1e-3, 3e-3):
    p = np.asarray(S.sample(parameters=jnp.array(P * (1 + e)))[2])
    worst = max(worst, abs(p.sum() - 1))
print(worst)
raise SystemExit(not worst < 1e-10)
'''),
]
SEEDS = [s for s in SEEDS if s["demo"]]
