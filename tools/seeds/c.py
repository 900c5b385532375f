TD, MS, OM, AF, CN, UT = ["jVMC/" + x for x in ("util/tdvp.py", "util/minsr.py", "util/output_manager.py", "nets/activation_functions.py", "nets/cnn.py", "util/util.py")]
SETUP = '''
import jax, jax.numpy as jnp, numpy as np, jVMC
import jVMC.operator as op
L = 3
def make(seed=3):
    psi = jVMC.vqs.NQS(jVMC.nets.CpxRBM(numHidden=2, bias=True), batchSize=20, seed=seed)
    psi(jnp.zeros((jVMC.global_defs.device_count(), 1, L), dtype=np.int32))
    p = np.asarray(psi.get_parameters())
    psi.set_parameters(jnp.array(p + 0.4 * np.random.default_rng(seed).normal(size=p.size)))
    return psi
H = op.BranchFreeOperator()
for i in range(L):
    H.add(op.scal_opstr(-1., (op.Sz(i), op.Sz((i + 1) % L))))
    H.add(op.scal_opstr(0.7, (op.Sx(i),)))
'''
SEEDS = [
dict(id="s20", property="C15", edits=[(TD, "update_1, _, _ = self.solve(Eloc1, sampleGradients1)", "update, _, _ = self.solve(Eloc1, sampleGradients1)"),
  (TD, "validation_tdvpErr = self._get_tdvp_error(update_1)\n                    update, solverResidual, _ =", "validation_tdvpErr = self._get_tdvp_error(update)\n                    _, solverResidual, _ ="),
  (TD, "S2.dot(update_1)", "S2.dot(update)")],
 needs="cross validation switched on", breaks="the returned update is that of half of the samples",
 demo=SETUP + '''
psi = make()
res = []
for cv in (False, True):
    s = jVMC.sampler.ExactSampler(psi, (L,))
    t = jVMC.util.tdvp.TDVP(s, pinvTol=1e-8, pinvCutoff=1e-8, crossValidation=cv)
    res.append(np.asarray(t(psi.get_parameters(), 0., psi=psi, hamiltonian=H, intStep=0)))
d = np.abs(res[0] - res[1]).max()
print(d)
raise SystemExit(not d < 1e-8)
'''),
dict(id="s22", property="C15", edits=[(MS, '        if "intStep" in rhsArgs:\n            if rhsArgs["intStep"] == 0:\n', '        if "intStep" in rhsArgs:\n            if rhsArgs["intStep"] is not None:\n')],
 needs="MinSR within a multi-step integration scheme", breaks="energy mean and variance refer to the last sub-step instead of the first",
 demo=SETUP + '''
psi = make()
s = jVMC.sampler.ExactSampler(psi, (L,))
t = jVMC.util.minsr.MinSR(s, pinvTol=1e-8)
p = psi.get_parameters()
t(p, 0., psi=psi, hamiltonian=H, intStep=0)
e = float(t.get_energy_mean()), float(np.real(t.get_energy_variance()))
t(p * 1.1, 0., psi=psi, hamiltonian=H, intStep=1)
f = float(t.get_energy_mean()), float(np.real(t.get_energy_variance()))
print(e, f)
raise SystemExit(not e == f)
'''),
dict(id="s23", property="C17", edits=[(OM, "idx = np.argmin(np.abs(times-time))", "idx = min(np.searchsorted(times, time), len(times) - 1)")],
 needs="a checkpoint requested for a time between two checkpoints, closer to the earlier one", breaks="the later checkpoint is returned instead of the nearest",
 demo='''
import numpy as np, tempfile, shutil, jVMC
d = tempfile.mkdtemp()
try:
    o = jVMC.util.OutputManager(d + "/o.hdf5")
    for k, t in enumerate((0., 1., 2.)):
        o.write_network_checkpoint(t, np.full(3, float(k)))
    t, w = o.get_network_checkpoint(time=1.2)
    print(t, w)
    ok = t == 1. and np.array_equal(w, np.full(3, 1.))
finally:
    shutil.rmtree(d)
raise SystemExit(not ok)
'''),
dict(id="s24", property="C17", edits=[(OM, '            time = times[idx]\n', '            if time < 0:\n                time = times[idx]\n')],
 needs="a checkpoint requested by a time at which none was written", breaks="the requested time is returned instead of the checkpoint's own time",
 demo='''
import numpy as np, tempfile, shutil, jVMC
d = tempfile.mkdtemp()
try:
    o = jVMC.util.OutputManager(d + "/o.hdf5")
    for k, t in enumerate((0., 1., 2.)):
        o.write_network_checkpoint(t, np.full(3, float(k)))
    t, w = o.get_network_checkpoint(time=0.8)
    print(t, w)
    ok = t == 1. and np.array_equal(w, np.full(3, 1.))
finally:
    shutil.rmtree(d)
raise SystemExit(not ok)
'''),
dict(id="s25", property="C17", edits=[(OM, '            self.timings[key]["last_total"] = self.timings[key]["total"]\n', '            self.timings[key]["last_total"] += self.timings[key]["newest"]\n')],
 needs="a timer that runs several times between two print-outs", breaks="the second print-out repeats time that was printed before",
 demo='''
import jVMC, tempfile, shutil
d = tempfile.mkdtemp()
try:
    o = jVMC.util.OutputManager(d + "/o.hdf5")
    lines = []
    o.print = lines.append
    o.add_timing("x", 1.); o.add_timing("x", 2.)
    o.print_timings()
    o.add_timing("x", 4.)
    o.print_timings()
    print(lines)
    ok = "3.000000s" in lines[1] and "4.000000s" in lines[3]
finally:
    shutil.rmtree(d)
raise SystemExit(not ok)
'''),
dict(id="s26", property="C17", edits=[(OM, 'newLen = len(f[self.currentGroup + "/" + groupname + "/" + key]) + 1\n                    f', 'newLen = len(f[self.currentGroup + "/" + groupname + "/times"])\n                    f')],
 needs="metadata whose set of names changes between calls", breaks="rows that were never written appear in the data set",
 demo='''
import numpy as np, tempfile, shutil, jVMC, h5py
d = tempfile.mkdtemp()
try:
    o = jVMC.util.OutputManager(d + "/o.hdf5")
    o.write_metadata(0., a=np.array(1.))
    o.write_metadata(1., a=np.array(2.), b=np.array(5.))
    with h5py.File(d + "/o.hdf5", "r") as f:
        a, b = np.array(f["metadata/a"]), np.array(f["metadata/b"])
    print(a, b)
    ok = a.tolist() == [1., 2.] and b.tolist() == [5.]
finally:
    shutil.rmtree(d)
raise SystemExit(not ok)
'''),
dict(id="s27", property="C18", edits=[(AF, "sgn_x = -2 * jnp.signbit(x.real) + 1", "sgn_x = jnp.sign(x.real)")],
 needs="a purely imaginary argument (hidden unit whose pre-activation has vanishing real part)", breaks="log cosh is 0 there",
 demo='''
import jax.numpy as jnp, numpy as np, jVMC
from jVMC.nets.activation_functions import log_cosh
v = complex(log_cosh(jnp.asarray(0.7j)))
w = complex(np.log(np.cosh(0.7j)))
print(v, w)
raise SystemExit(not abs(v - w) < 1e-12)
'''),
dict(id="s28", property="C18", edits=[(CN, '''        for l in range(len(activationFunctions), len(self.channels)):
            activationFunctions.append(self.actFun[-1])

''', '''        for l in range(len(activationFunctions), len(self.channels)):
            activationFunctions.append(self.actFun[l % len(self.actFun)])

''')],
 needs="a real convolutional network with at least two activation functions and more layers than activation functions", breaks="later layers use the wrong activation function",
 demo='''
import jax, jax.numpy as jnp, numpy as np, jVMC
f, g = jnp.tanh, lambda x: x**2
a = jVMC.nets.CNN(F=(2,), channels=(2, 3, 2), actFun=(f, g))
b = jVMC.nets.CNN(F=(2,), channels=(2, 3, 2), actFun=(f, g, g))
s = jnp.array([1, 0, 1, 1])
p = a.init(jax.random.PRNGKey(0), s)
x, y = float(a.apply(p, s)), float(b.apply(p, s))
print(x, y)
raise SystemExit(not abs(x - y) < 1e-12)
'''),
dict(id="s29", property="C18", edits=[(CN, '''        bias = [self.bias] * len(self.channels)
        bias[0] = self.firstLayerBias

        activationFunctions = [f for f in self.actFun]
        for l in range(len(activationFunctions), len(self.channels)):
            activationFunctions.append(self.actFun[-1])
        
''', '''        bias = [self.bias] * len(self.channels)
        bias[0] = self.firstLayerBias and self.bias

        activationFunctions = [f for f in self.actFun]
        for l in range(len(activationFunctions), len(self.channels)):
            activationFunctions.append(self.actFun[-1])
        
''')],
 needs="CpxCNN with firstLayerBias=True and bias=False", breaks="the first layer has no bias",
 demo='''
import jax, jax.numpy as jnp, numpy as np, jVMC
n = jVMC.nets.CpxCNN(F=(2,), channels=(2, 3), bias=False, firstLayerBias=True)
p = n.init(jax.random.PRNGKey(0), jnp.array([1, 0, 1]))
sh = sorted(x.shape for x in jax.tree_util.tree_leaves(p))
print(sh)
raise SystemExit(not sh == [(2,), (2, 1, 2), (2, 2, 3)])
'''),
dict(id="s30", property="C19", edits=[(UT, "jnp.sqrt(sampler.get_last_number_of_samples())", "jnp.sqrt(p.size)")],
 needs="several processes (or an exact sampler)", breaks="the Monte Carlo error uses the samples of one process only",
 demo=SETUP + '''
psi = make()
s = jVMC.sampler.MCSampler(psi, (L,), jax.random.PRNGKey(1), updateProposer=jVMC.sampler.propose_spin_flip, numChains=5, numSamples=40)
f = s.get_last_number_of_samples
s.get_last_number_of_samples = lambda: 4 * f()     # four processes
r = jVMC.util.measure({"E": H}, psi, s)["E"]
e, w = float(r["MC_error"][0]), float(np.sqrt(r["variance"][0] / s.get_last_number_of_samples()))
print(e, w)
raise SystemExit(not abs(e - w) < 1e-12)
'''),
dict(id="s31", property="C19", edits=[(UT, '''        for op in get_iterable(ops):

            args = ()
            if''', '''        args = ()
        for op in get_iterable(ops):

            if''')],
 needs="an operator without arguments listed after one with arguments", breaks="the arguments of the previous operator are used",
 demo=SETUP + '''
psi = make()
s = jVMC.sampler.ExactSampler(psi, (L,))
O = op.BranchFreeOperator()
O.add(op.scal_opstr(lambda t=0.: 1. + t, (op.Sz(0),)))
r = jVMC.util.measure({"a": [(O, 2.), O], "b": [O]}, psi, s)
x, y = np.asarray(r["a"]["mean"]), np.asarray(r["b"]["mean"])
print(x, y)
raise SystemExit(not (abs(x[1] - y[0]) < 1e-10 and abs(x[0] - 3 * y[0]) < 1e-10))
'''),
]
