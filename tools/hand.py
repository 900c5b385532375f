"""tools/hand.py OUT [names]: hand-written trial changes (subtler than the random mutants of mutate.py), judged by the check of their property in scratch copies."""
import sys, os, subprocess, shutil, re
from concurrent.futures import ThreadPoolExecutor
M, ST, SA, V, B, BF, PO, SY, SW, TD, R1, R2, TN = ["jVMC/" + x for x in ("mpi_wrapper.py", "stats.py", "sampler.py", "vqs.py", "operator/base.py", "operator/branch_free.py", "operator/povm.py", "util/symmetries.py",
    "nets/sym_wrapper.py", "util/tdvp.py", "nets/rnn1d_general.py", "nets/rnn2d_general.py", "nets/two_nets_wrapper.py")]
STP, OM, UT, AF, CN, FF = ['jVMC/' + x for x in ('util/stepper.py', 'util/output_manager.py', 'util/util.py', 'nets/activation_functions.py', 'nets/cnn.py', 'nets/ffn.py')]
H = [
("c02-gather-order", "C02", [(M, "comm.allgather(data.reshape((-1,*data.shape[2:])))", "comm.allgather(jnp.swapaxes(data, 0, 1).reshape((-1,*data.shape[2:])))")]),
("c02-cov-conj", "C02", [(M, "jnp.outer(jnp.conj(mean), mean)", "jnp.outer(mean, jnp.conj(mean))")]),
("c02-single", "C02", [(M, "localSum = np.array(_sum_up_pmapd(data)[0])", "localSum = np.array(_sum_up_pmapd(data)[0])\n    if np.iscomplexobj(localSum):\n        localSum = localSum.astype(np.complex64)")]),
("c02-real-cov", "C02", [(M, "return global_sum(mean_helper(data, p))", "m = global_sum(mean_helper(data, p))\n    return m.real if not jnp.any(m.imag) else m")]),
("c03-subset-local", "C03", [(ST, "normalization = mpi.global_sum(newObs._weights)", "normalization = jnp.sum(newObs._weights)")]),
("c03-covarvar-self", "C03", [(ST, "- jnp.abs(self.covar(other))**2", "- jnp.abs(self.covar())**2")]),
("c03-stale-params", "C03", [(ST, "        if params is not None:\n            observations = self._estimator(params, self._configs)\n            self._compute_data_and_mean(observations)\n\n        return self._mean",
   "        if params is not None and params is not getattr(self, '_lastParams', None):\n            observations = self._estimator(params, self._configs)\n            self._compute_data_and_mean(observations)\n            self._lastParams = params\n\n        return self._mean")]),
("c03-var-stale", "C03", [(ST, "            observations = self._estimator(params, self._configs)\n            self._compute_data_and_mean(observations)\n\n        return self._mean",
   "            observations = self._estimator(params, self._configs)\n            if len(observations.shape) == 2:\n                observations = observations[..., None]\n            self._mean = mpi.global_sum(_mean_helper(observations, self._weights)[:, None, ...])\n\n        return self._mean")]),
("c04-pad-last", "C04", [(SA, "self.numStatesPerDevice = jnp.clip(myNumStates - maxStatesPerDevice * jnp.arange(deviceCount), 0, maxStatesPerDevice)",
   "self.numStatesPerDevice = jnp.full((deviceCount,), maxStatesPerDevice).at[-1].set(max(myNumStates - maxStatesPerDevice * (deviceCount - 1), 0))")]),
("c04-norm-stale", "C04", [(SA, "        nrm = mpi.global_sum(p)\n        p = self._normalize_pmapd(p, nrm)\n", "        nrm = mpi.global_sum(p)\n        if parameters is None or abs(nrm - 1.) > 1e-3:\n            p = self._normalize_pmapd(p, nrm)\n")]),
("c05-weight-2", "C05", [(SA, "jnp.exp((1.0 / self.logProbFactor - self.mu) * jnp.real(logPsi))", "jnp.exp((2. - self.mu) * jnp.real(logPsi))")]),
("c05-default", "C05", [(SA, "        if numSamples is None:\n            numSamples = self.numSamples\n", "        if numSamples is None:\n            numSamples = self.numSamples\n        else:\n            self.numSamples = numSamples\n")]),
("c05-lcm", "C05", [(SA, "int(np.lcm(self.numChains, multipleOf))", "self.numChains * multipleOf")]),
("c05-gen-restore", "C05", [(SA, "            configs, coeffs, ps = self._get_samples_gen(self.net.parameters, numSamples, multipleOf)\n            if parameters is not None:\n                self.net.params = tmpP\n",
    "            if parameters is not None:\n                newP = self.net.parameters\n                self.net.params = tmpP\n                configs, coeffs, ps = self._get_samples_gen(newP, numSamples, multipleOf)\n            else:\n                configs, coeffs, ps = self._get_samples_gen(self.net.parameters, numSamples, multipleOf)\n")]),
("c05-glob", "C05", [(SA, "jnp.ones(samples.shape[:2]) / self.globNumSamples", "jnp.ones(samples.shape[:2]) / (samples.shape[0] * samples.shape[1] * mpi.commSize)")]),
("c06-init-params", "C06", [(SA, "net, _ = self.net.get_sampler_net()\n        self.logAccProb", "net, netParams = self.net.get_sampler_net()\n        self.logAccProb")]),
("c06-zeromag", "C06", [(SA, "bound_down = jax.random.randint(idxKeyDown, (1,), 1, s.shape[0] * s.shape[1] / 2 + 1)", "bound_down = jax.random.randint(idxKeyDown, (1,), 1, s.shape[0] * s.shape[1] / 2)")]),
("c06-zeromag-key", "C06", [(SA, "bound_down = jax.random.randint(idxKeyDown,", "bound_down = jax.random.randint(idxKeyUp,")]),
("c06-z2-key", "C06", [(SA, "doFlip = random.randint(flipKey, (1,), 0, 5)[0]\n    return jax.lax.cond(doFlip == 0, lambda x: 1 - x, lambda x: x, s)\n\n\ndef propose_spin_flip_zeroMag", "doFlip = random.randint(flipKey, (1,), 0, 5)[0]\n    return jax.lax.cond(doFlip == 0, lambda x: 1 - x, lambda x: x, s) if s.size % 2 == 0 else s\n\n\ndef propose_spin_flip_zeroMag")]),
("c06-cached", "C06", [(SA, "        # Initialize sampling stuff\n        self._mc_init(params)\n", "        # Initialize sampling stuff\n        if not hasattr(self, 'logAccProb') or tmpP is not None:\n            self._mc_init(params)\n")]),
("c07-50", "C07", [(BF, "res[[i for i,_ in prefactor]] = np.concatenate(comm.allgather(myRes), axis=0)", "res[:N] = np.concatenate(comm.allgather(myRes), axis=0)")]),
("c07-mul-factor", "C07", [(BF, "return OpStr(*(other[0] * self), *(other[1:]))", "return OpStr(other[0], *self, *(other[1:])) if not callable(self[0]) else OpStr(*self, *(other[1:]))")]),
("c07-fermi-id", "C07", [(BF, "                    self.matEls[o].append(IdOp['matEls'])\n                    self.fermionic[o].append(0.)", "                    self.matEls[o].append(IdOp['matEls'])\n                    self.fermionic[o].append(self.fermionic[o][-1])")]),
("c07-recompile", "C07", [(BF, "    def __iadd__(self, opDescr):\n        self.add(opDescr)\n", "    def __iadd__(self, opDescr):\n        self.ops.append(opDescr)\n")]),
("c08-argnum", "C08", [(B, "if (not self.compiled) or self.compiled_argnum!=len(args):", "if not self.compiled:")]),
("c08-imag", "C08", [(B, "b = jnp.abs(x[0]) > 1e-6", "b = jnp.real(x[0] * x[0]) > 1e-12")]),
("c08-nonlog", "C08", [(B, "            logPsiS = psi(samples)\n            if not psi.logarithmic:\n                logPsiS = jnp.log(logPsiS)\n", "            logPsiS = psi(samples)\n            if not psi.logarithmic and self.ElocBatchSize <= 0:\n                logPsiS = jnp.log(logPsiS)\n")]),
("c08-alloc", "C08", [(B, "if OlocBatch.dtype == global_defs.tCpx:", "if jnp.any(jnp.imag(OlocBatch) != 0):")]),
("c09-cr-first", "C09", [(V, "return jnp.concatenate([p.ravel() for p in tree_flatten(t)[0]])\n            grads_r", "return tree_flatten(t)[0][0].ravel()\n            grads_r")]),
("c09-cr-tol", "C09", [(V, "abs_tol=1e-14", "abs_tol=1e-5")]),
("c09-vecmap", "C09", [(V, "P = jnp.arange(2*self.numParameters)\n        for s in self.paramShapes:", "P = jnp.arange(2*self.numParameters)\n        for s in sorted(self.paramShapes, key=lambda x: len(x[1])):")]),
("c10-collections", "C10", [(V, '        ps = unfreeze(self.parameters)\n        ps["params"] = unfreeze(val)\n', '        ps = {"params": unfreeze(val)}\n')]),
("c10-update-cpx", "C10", [(V, "            jax.lax.add, self.params,", "            (lambda a, b: a + b if self.realParams else a + b.real + 1.j * jnp.abs(b.imag) * jnp.sign(b.imag) * (jnp.abs(b.imag) > 1e-12)), self.params,")]),
("c11-rot3", "C11", [(SY, 'rotation["factor"].append(kwargs["rotation"]["factor"]**3)', 'rotation["factor"].append(kwargs["rotation"]["factor"])')]),
("c11-ref2", "C11", [(SY, 'reflection["factor"].append(kwargs["reflection"]["factor"]**2)', 'reflection["factor"].append(abs(kwargs["reflection"]["factor"])**2)')]),
("c11-unique", "C11", [(SY, "    factors = factors[indices]\n    return LatticeSymmetry(jnp.array(uniqueOrbit).reshape(-1, L, L), factors)", "    factors = factors[np.sort(indices)]\n    return LatticeSymmetry(jnp.array(uniqueOrbit).reshape(-1, L, L), factors)")]),
("c11-realfac", "C11", [(SW, "jax.scipy.special.logsumexp(coeffs, b=sym_factor)", "jax.scipy.special.logsumexp(coeffs, b=jnp.real(sym_factor))")]),
("c12-phase3", "C12", [(R1, "logCoeffs[self.inputDim-1:]", "logCoeffs[-self.inputDim+1:][::-1]")]),
("c12-carry", "C12", [(R2, "return (self.reverse_line(out[0], x[1]), jax.nn.one_hot(configLine, self.inputDim)), configLine", "return (self.reverse_line(out[0], x[1]), jax.nn.one_hot(out[1], self.inputDim)), configLine")]),
("c12-depth", "C12", [(R1, "newCarry = newCarry.at[j].set(current_carry)", "newCarry = newCarry.at[min(j, 1)].set(current_carry)")]),
("c13-dis", "C13", [(PO, "- 0.5 * jnp.einsum('ij, jk, bc, ckl, ali -> ab', jnp.conj(A).T, A, T_inv, M, M)", "- 0.5 * jnp.einsum('ij, jk, bc, ckl, ali -> ab', A, jnp.conj(A).T, T_inv, M, M)")]),
("c13-yup", "C13", [(PO, "jnp.conj(jnp.transpose(s)), jnp.dot(ele, s)", "jnp.transpose(s), jnp.dot(ele, jnp.conj(s))")]),
("c13-corr2d", "C13", [(PO, "correlators[corrLen] = self._spin_average_pmapd(corrPerSamplePerSpin.reshape(states.shape[0], -1, self.system_data[\"L\"]**2))", "correlators[corrLen] = self._spin_average_pmapd(corrPerSamplePerSpin[:, :, :, 0])")]),
("c13-name", "C13", [(PO, "        if name in self.imaginaries.keys():\n", "        if name in self.imaginaries.values():\n")]),
("c13-imagupdate", "C13", [(PO, "        self.imaginaries[name] = omega\n        self._update_operators()", "        self.imaginaries[name] = omega\n        self.operators.setdefault(name, -omega)")]),
("c14-sites", "C14", [(PO, 'op["sites"] == indices[:_n+1]]', 'set(op["sites"]) == set(indices[:_n+1])]')]),
("c14-empty", "C14", [(PO, "empty_idx = (empty_idx + 1) % (self.max_site + 1)", "empty_idx = (empty_idx + 2) % (self.max_site + 1)")]),
("c14-id", "C14", [(PO, 'id = len(self.ops) + 1', 'id = (opDescr["name"], opDescr["sites"])')]),
("c14-kron", "C14", [(PO, "op_matrix = jnp.kron(op_matrix, jnp.eye(4, dtype=opDtype))", "op_matrix = jnp.kron(jnp.eye(4, dtype=opDtype), op_matrix) if j > 0 else jnp.kron(op_matrix, jnp.eye(4, dtype=opDtype))")]),
("c15-shift", "C15", [(TD, "if self.diagonalShift > 1e-10:", "if self.diagonalShift > 1e-4:")]),
("c15-eigfallback", "C15", [(TD, "            tmpEv, tmpV = np.linalg.eigh(tmpS)\n            self.ev = jnp.array(tmpEv)\n            self.V = jnp.array(tmpV)\n\n        self.VtF", "            tmpEv, tmpV = np.linalg.eigh(tmpS)\n            self.ev = jnp.array(tmpEv)\n            self.V = jnp.array(tmpV.T)\n\n        self.VtF")]),
("c15-cutoff", "C15", [(TD, "return update, residual, max(cutoff, self.pinvCutoff)", "return update, residual, cutoff")]),
("c15-restore", "C15", [(TD, "        psi.set_parameters(tmpParameters)\n\n        if \"intStep\"", "        if outp is None:\n            psi.set_parameters(tmpParameters)\n\n        if \"intStep\"")]),
("c20-setkey", "C20", [(SA, "        self.key = jax.random.split(key, mpi.commSize)[mpi.rank]\n        self.key = jax.random.split(self.key, global_defs.device_count())\n\n    def get_last", "        self.key = jax.random.split(key, mpi.commSize + 1)[1]\n        self.key = jax.random.split(self.key, global_defs.device_count())\n\n    def get_last")]),
("c20-genkey", "C20", [(SA, "tmpKey2 = tmpKeys[2 * global_defs.device_count():]", "tmpKey2 = tmpKeys[:global_defs.device_count()]")]),
("c20-row", "C20", [(R2, "keys = jax.random.split(x[0], self.L)", "keys = jnp.broadcast_to(x[0], (self.L,) + x[0].shape)")]),
("c20-dice", "C20", [(SA, "accepted = random.bernoulli(newKey, P).reshape((-1,))", "accepted = (random.uniform(newKey) < P).reshape((-1,))")]),
("c16-heun-dt", "C16", [(STP, "        y = yInitial + dt * k0\n        k1 = f(y, t + dt, **rhsArgs, intStep=1)\n        dy0 = 0.5 * dt * (k0 + k1)\n\n        return", "        y = yInitial + self.dt * k0\n        k1 = f(y, t + dt, **rhsArgs, intStep=1)\n        dy0 = 0.5 * dt * (k0 + k1)\n\n        return")]),
("c16-real", "C16", [(STP, "normFunction(dy1 - dy0)", "normFunction(jnp.real(dy1 - dy0))")]),
("c16-realdt", "C16", [(STP, "            realDt = dt\n", "            realDt = min(dt, self.maxStep)\n")]),
("c16-maxstep", "C16", [(STP, "            if dt > self.maxStep:\n                dt = self.maxStep\n", "            if dt > self.maxStep and fe >= 1.:\n                dt = self.maxStep\n")]),
("c16-keep", "C16", [(STP, "        self.dt = dt\n\n        return yInitial + dy1, realDt", "        self.dt = max(dt, realDt)\n\n        return yInitial + dy1, realDt")]),
("c16-alias", "C16", [(STP, "            y = yInitial.copy()\n", "            y = yInitial\n")]),
("c16-tols", "C16", [(STP, "while fe < 1.:", "while fe < 0.999:")]),
("c17-sorted", "C17", [(OM, "idx = np.argmin(np.abs(times-time))", "idx = min(np.searchsorted(times, time), len(times) - 1)")]),
("c17-zero", "C17", [(OM, "if time >= 0:", "if time > 0:")]),
("c17-f4", "C17", [(OM, '"/" + key, (0,) + value.shape, maxshape=(None,) + value.shape, dtype=\'f8\'', '"/" + key, (0,) + value.shape, maxshape=(None,) + value.shape, dtype=\'f4\'')]),
("c17-timing-zero", "C17", [(OM, "        for key, item in self.timings.items():\n", "        for key, item in self.timings.items():\n            if item[\"total\"] == item[\"last_total\"]:\n                continue\n")]),
("c17-add-timing", "C17", [(OM, "        self.timings[name][\"total\"] += elapsed\n        self.timings[name][\"newest\"] = elapsed\n        self.timings[name][\"count\"] += 1\n\n    def print_timings", "        self.timings[name][\"total\"] += elapsed\n        self.timings[name][\"newest\"] = elapsed\n        self.timings[name][\"count\"] += 1\n        self.timings[name][\"init\"] = 0.0\n\n    def print_timings")]),
("c17-rank", "C17", [(OM, "if mpi.rank == mpiRank:\n\n            groupname", "if mpi.rank == 0:\n\n            groupname")]),
("c17-sub", "C17", [(OM, "                if not self.currentGroup in f:\n                    f.create_group(self.currentGroup)", "                f.require_group(self.currentGroup.split('/')[-1] or '/')\n                f.require_group(self.currentGroup)")]),
("c17-obs-times", "C17", [(OM, "newLen = len(f[datasetName]) + 1", "newLen = len(f[self.currentGroup + \"/observables/times\"])")]),
("c19-err", "C19", [(UT, "jnp.sqrt(sampler.get_last_number_of_samples())", "jnp.sqrt(sampler.numSamples if hasattr(sampler, 'numSamples') else sampler.get_last_number_of_samples())")]),
("c19-args", "C19", [(UT, "            args = ()\n            if isinstance", "            if isinstance"), (UT, "        for op in get_iterable(ops):\n", "        args = ()\n        for op in get_iterable(ops):\n")]),
("c19-tol", "C19", [(UT, "while n < numSteps and varE > varianceTol:", "while n < numSteps and abs(varE) >= varianceTol:")]),
("c19-shift", "C19", [(UT, "delta = 0.95 * delta\n", "delta = max(0.95 * delta, 1e-3)\n")]),
("c19-obs", "C19", [(UT, "        if outp is not None:\n            if observables is not None:\n                obs = measure(observables, psi, sampler)\n                outp.write_observables(n, **obs)\n\n        if \"set_", "        if outp is not None:\n            if observables is not None and varE > varianceTol:\n                obs = measure(observables, psi, sampler)\n                outp.write_observables(n, **obs)\n\n        if \"set_")]),
("c19-fac", "C19", [(UT, "descr[fac_key] if fac_key in descr else 1", "np.real(descr[fac_key]) if fac_key in descr else 1")]),
("c19-gen", "C19", [(UT, "isGenerator = \"sample\" in dir(model1)", "isGenerator = \"sample\" in dir(model2)")]),
("c19-real", "C19", [(UT, "result[name][\"variance\"] = jnp.real(jnp.array(tmpVariances))", "result[name][\"variance\"] = jnp.abs(jnp.array(tmpVariances)) - jnp.imag(jnp.array(tmpMeans))**2")]),
("c18-lc", "C18", [(AF, "sgn_x = -2 * jnp.signbit(x.real) + 1", "sgn_x = jnp.sign(x.real)")]),
("c18-cnn-act", "C18", [(CN, "activationFunctions.append(self.actFun[-1])", "activationFunctions.append(self.actFun[0])")]),
("c18-ffn-act", "C18", [(FF, "activationFunctions.append(self.actFun[-1])", "activationFunctions.append(self.actFun[l % len(self.actFun)])")]),
("c18-cnn-bias", "C18", [(CN, "bias[0] = self.firstLayerBias", "bias[0] = self.firstLayerBias and self.bias")]),
("c18-sym-flip", "C18", [(CN, "x = (x + 1) // 2", "x = jnp.abs(x + 1) // 2")]),
("c18-nrm", "C18", [(CN, "jnp.prod(jnp.array(x.shape[reduceDims[-1]:]))", "jnp.prod(jnp.array(x.shape[reduceDims[-1] + 1:-1])) * self.channels[0]")]),
("td-cv-subset", "C15", [(TD, "sampleGradients2 = sampleGradients.subset(start=1, step=2)", "sampleGradients2 = sampleGradients.subset(start=0, step=2)")]),
("td-err-var", "C15", [(TD, "jnp.real(update.dot(self.F0))) / self.ElocVar0)", "jnp.real(update.dot(self.F0))) / self.ElocVar)")]),
("td-negev", "C15", [(TD, "jnp.where(jnp.abs(self.ev / self.ev[-1]) > 1e-14", "jnp.where(self.ev / self.ev[-1] > 1e-14")]),
("td-cv-leak", "C15", [(TD, "                    self.S, _ = self.get_tdvp_equation(Eloc, sampleGradients)\n", ""), (TD, "update, solverResidual, _ = self.solve(Eloc, sampleGradients)\n                    validation", "validation")]),
("td-prefactor", "C15", [(TD, "        if rhsPrefactor is None:\n            rhsPrefactor = self.rhsPrefactor\n", "        if rhsPrefactor is None:\n            rhsPrefactor = self.rhsPrefactor\n        self.rhsPrefactor = rhsPrefactor\n")]),
("td-meta-late", "C15", [(TD, "if rhsArgs[\"intStep\"] == 0:", "if rhsArgs[\"intStep\"] == 0 or self.metaData is None:")]),
("minsr-restore", "C15", [("jVMC/util/minsr.py", "        tmpParameters = psi.get_parameters()\n        psi.set_parameters(netParameters)\n", "        psi.set_parameters(netParameters)\n        tmpParameters = psi.get_parameters()\n")]),
("minsr-t", "C15", [("jVMC/util/minsr.py", "get_O_loc(sampleConfigs, psi, sampleLogPsi, t)", "get_O_loc(sampleConfigs, psi, sampleLogPsi)")]),
("vqs-samplecache", "C12", [(V, "lambda p, n, x: net.apply(p, n, x, method=net.sample)", "lambda p, n, x: net.apply(self.parameters, n, x, method=net.sample)")]),
("vqs-samplecache-5", "C05", [(V, "lambda p, n, x: net.apply(p, n, x, method=net.sample)", "lambda p, n, x: net.apply(self.parameters, n, x, method=net.sample)")]),
("vqs-samplecache-10", "C10", [(V, "lambda p, n, x: net.apply(p, n, x, method=net.sample)", "lambda p, n, x: net.apply(self.parameters, n, x, method=net.sample)")]),
("vqs-evalreal", "C06", [(V, "evalReal = lambda p,x: jnp.real( self.net.apply(p,x) )\n", "evalReal = lambda p,x: jnp.real( self.net.apply(self.parameters,x) )\n")]),
("mpi-bcast", "C02", [(M, "comm.Bcast([buf, dim, MPI.DOUBLE], root=root)", "comm.Bcast([buf, dim, MPI.DOUBLE], root=0)")]),
("mpi-gather2", "C02", [(M, "res = comm.allgather(data.reshape((-1,*data.shape[2:])))", "res = comm.allgather(jnp.swapaxes(data, 0, 1).reshape((-1,*data.shape[2:])))")]),
("mpi-commtime", "C02", [(M, "mean = global_mean(data, p)\n\n", "mean = global_mean(data, p)\n\n")]),
("mpi-first", "C01", [(M, "        firstSampleId += globNumSamples % commSize\n", "        firstSampleId += globNumSamples % commSize - (globNumSamples < commSize)\n")]),
("ex-logpsi", "C04", [("jVMC/sampler.py", "        logPsi = self.psi(self.basis)\n        if parameters is not None:\n            self.psi.set_parameters(tmpP)\n", "        if parameters is not None:\n            self.psi.set_parameters(tmpP)\n\n        logPsi = self.psi(self.basis)\n")]),
("ex-lpf", "C04", [("jVMC/sampler.py", "p = jnp.exp(jnp.real(logPsi - lastNorm) / self.logProbFactor)", "p = jnp.exp(2. * jnp.real(logPsi - lastNorm))")]),
("ex-cutoff", "C04", [("jVMC/sampler.py", "        p = self._normalize_pmapd(p, nrm)\n", "        p = jnp.where(p < 1e-12 * nrm, 0., p)\n        p = self._normalize_pmapd(p, nrm)\n")]),
("st-end", "C03", [("jVMC/stats.py", "newObs._data = _get_subset_helper(self._data, (start, end, step))", "newObs._data = _get_subset_helper(self._data, (start, None if end == -1 else end, step))")]),
("st-cache", "C03", [("jVMC/stats.py", "        if params is not None:\n            observations = self._estimator(params, self._configs)\n            self._compute", "        if params is not None and not (self._mean is not None and params is getattr(self, '_lastParams', None)):\n            self._lastParams = params\n            observations = self._estimator(params, self._configs)\n            self._compute")]),
("st-gradmean", "C03", [("jVMC/stats.py", "return self._mean, psiGrad.covar(self).ravel() + obsGradMean", "return self._mean, jnp.real(psiGrad.covar(self).ravel()) + obsGradMean")]),
("st-flatgrad", "C03", [("jVMC/stats.py", "[jnp.real(x.ravel()), -jnp.imag(x.ravel())]", "[jnp.real(x.ravel()), -jnp.imag(x).T.ravel()]")]),
("st-select", "C03", [("jVMC/stats.py", "newObs._mean = self._mean[ixs]", "newObs._mean = self._mean[jnp.sort(jnp.asarray(ixs))]")]),
("st-var", "C03", [("jVMC/stats.py", "return mpi.global_sum( jnp.abs(self._data)**2 )", "return mpi.global_sum( jnp.real(self._data)**2 + jnp.imag(self._data)**2 * (self._data.shape[-1] > 1) )")]),
("cnn-padside", "C18", [(CN, "                pads.append((0, f - 1))\n            else:\n                pads.append((f - 1, f - 1))\n        pads.append((0, 0))\n\n        bias = [self.bias] * len(self.channels)\n        bias[0] = self.firstLayerBias\n\n        activationFunctions = [f for f in self.actFun]\n        for l in range(len(activationFunctions), len(self.channels)):\n            activationFunctions.append(self.actFun[-1])\n\n        # List", "                pads.append((f - 1, 0))\n            else:\n                pads.append((f - 1, f - 1))\n        pads.append((0, 0))\n\n        bias = [self.bias] * len(self.channels)\n        bias[0] = self.firstLayerBias\n\n        activationFunctions = [f for f in self.actFun]\n        for l in range(len(activationFunctions), len(self.channels)):\n            activationFunctions.append(self.actFun[-1])\n\n        # List")]),
("cnn-padorder", "C18", [(CN, "        for f in self.F:\n", "        for f in self.F[::-1]:\n")]),
("cnn-same", "C18", [(CN, "'VALID' if self.periodicBoundary else 'SAME'", "'VALID'")]),
("cnn-onebias", "C18", [(CN, "bias[0] = self.firstLayerBias", "bias[0] = self.firstLayerBias or len(self.channels) == 1")]),
("cnn-symbias", "C18", [(CN, "bias=self.bias, firstLayerBias=self.firstLayerBias)", "bias=self.bias)")]),
("base-dev0", "C08", [(B, "self.sp = self._array_idx_pmapd(self.sp, idx[..., :jnp.max(self.numNonzero)])", "self.sp = self._array_idx_pmapd(self.sp, idx[..., :jnp.max(self.numNonzero)])\n        self.numNonzero = self.numNonzero[:1]")]),
("base-reshape", "C08", [(B, "(matEl, logPsiS, logPsiSP.reshape(matEl.shape))", "(matEl, logPsiS, jnp.where(matEl == 0, logPsiS[:, None], logPsiSP.reshape(matEl.shape)))")]),
("base-nanzero", "C08", [(B, "jnp.sum(x * jnp.exp(z - y))", "jnp.sum(x * jnp.exp(jnp.clip(jnp.real(z - y), -30., 30.) + 1.j * jnp.imag(z - y)))")]),
("base-batchlog", "C08", [(B, "            logPsiSP = psi(sampleOffdConfigs)\n            if not psi.logarithmic:\n                logPsiSP = jnp.log(logPsiSP)\n            OlocBatch", "            logPsiSP = psi(sampleOffdConfigs)\n            OlocBatch")]),
("c01-rounding", "C01", [(M, "globNumSamples = commSize * numChains * mySamples", "globNumSamples = commSize * mySamples")]),
]
outp, names = sys.argv[1], sys.argv[2:]
log = open(outp, "a")


def do(h):
    n, c, ed = h
    w = "/tmp/hand_" + n
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", w])
    for f, a, b in ed:
        p = os.path.join(w, f)
        s = open(p).read()
        if s.count(a) < 1:
            log.write("BADEDIT %s\n" % n); log.flush(); shutil.rmtree(w); return
        open(p, "w").write(s.replace(a, b))
    o = subprocess.run("VP_REPO=%s VP_REPLAY_DIR=%s timeout 900 nice -n 10 python3 run_check.py %s quick 2>&1 | tail -80 | cut -c1-300" % (w, w, c), shell=True, capture_output=True, text=True, cwd=os.environ.get("MUT_VERIF", "/verif")).stdout
    st = ("SYMONLY" if "no-failing-input-found" in o else "CAUGHT") if "VIOLATION" in o else "SURVIVED" if "obligations," in o else "NOANSWER"
    m = re.findall(r".*obligations,.*", o)
    log.write("%s %s %s [%s]\n" % (st, c, n, m[-1][:160] if m else o[-200:])); log.flush()
    shutil.rmtree(w)


with ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "2"))) as ex:
    list(ex.map(do, [h for h in H if not names or h[0] in names]))
log.write("END\n")
