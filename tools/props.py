"""Single source of properties.jsonl and MANIFEST.json  (python3 tools/props.py regenerates both)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, note, technique=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), _note=note,
                  _tech=technique or "contracts on the real functions; obligations discharged by symbolic execution + ring normal form / z3"))


COMMON = ("Every obligation is generated on each run by executing the real functions on symbolic arrays and discharged by the normal-form "
          "prover or z3; floating point is treated as exact arithmetic, JAX transformations and the stand-ins for MPI/device mapping are trusted. "
          "Obligations that a changed tree moves out of reach are decided by the labelled bounded run-time contracts only. ")

prop("C01", "Samples and work are partitioned exactly over processes and devices",
     "When a number of samples is distributed over MPI processes, the shares are contiguous ranges ordered by rank that cover every sample exactly once, "
     "add up to the requested number and differ by at most one. "
     "When a share must fill all devices and chains it is rounded up to the next full multiple, and the reported global number of samples is exactly the sum "
     "of what the processes produce and never less than what was requested.",
     ["inputs", "configurations"], "all numbers of samples, all numbers of processes and all ranks",
     "The tests run with one process and a few sample counts; the guarantee is about every (count, processes, rank) combination.",
     ["jVMC/mpi_wrapper.py"], [("sample distribution", "mpi_wrapper.distribute_sampling"), ("batch and rank bookkeeping", "mpi_wrapper")],
     COMMON + "Integer arithmetic over all (N, R, r, D) by z3.")
prop("C02", "Global reductions equal the reduction of the undivided data",
     "Sums, means, variances and covariances computed over data that is spread across processes and devices equal the same statistic of the "
     "concatenated data, with or without probability weights, for scalar, vector and matrix observables. "
     "Every process obtains the same result, and broadcasting delivers the root's data unchanged.",
     ["inputs", "configurations"], "all data values, array extents, numbers of processes and devices",
     "Tests use one process and one device, so a reduction that forgets a device, a rank or a weight is invisible.",
     ["jVMC/mpi_wrapper.py"], [("global_sum / mean / variance / covariance / bcast", "mpi_wrapper.py")],
     COMMON + "Extents and the number of processes/devices are symbolic.")
prop("C03", "Sampled-observable statistics follow their weighted definitions",
     "For any weighted sample set spread over processes and devices, mean, variance, covariance, tangent kernel and the per-sample covariance "
     "quantities of sampled observables equal their textbook weighted definitions on the whole sample set. "
     "Selecting a subset or transforming the observable first gives the same result as applying the definition to the selected or transformed data.",
     ["inputs", "configurations"], "all observations, weights and sample layouts",
     "Tests compare a few random arrays on a single device; cross-device, cross-process and complex conjugation placements are not reached.",
     ["jVMC/stats.py", "jVMC/mpi_wrapper.py"], [("SampledObs", "stats.py")],
     COMMON + "Weights are assumed positive where the code divides by them.")
prop("C07", "Operators act as the sum of their strings of local operators",
     "Applying an operator that was assembled from strings of local operators to a configuration yields exactly the sum over its strings of "
     "prefactor times the product of the local matrix elements, the factors acting one after the other from the right, with fermionic signs from the "
     "sites beyond the one acted on. "
     "This holds for constant, time-dependent and composed prefactors, any lattice shape, any number of strings of different length, and after terms were added later.",
     ["inputs", "programs"], "all operator tables, sites, prefactors and configurations; all ways of composing strings",
     "Tests check a handful of Hamiltonians on one chain; string padding, merging of diagonal terms, prefactor composition and several processes are not covered.",
     ["jVMC/operator/branch_free.py", "jVMC/operator/base.py"],
     [("string compilation", "operator/branch_free.py compile"), ("action on a configuration", "operator/branch_free.py _get_s_primes"),
      ("operator algebra", "operator/branch_free.py OpStr, LocalOp, scal_opstr")],
     COMMON + "String length <= 3 and lattice size <= 4 are fixed per obligation; tables, sites, prefactors and configuration are symbolic.")
prop("C16", "Time steppers apply their Runge-Kutta scheme and honour the tolerance",
     "Each explicit integrator advances the solution by exactly the update of its Runge-Kutta scheme, evaluating the right-hand side at the scheme's intermediate "
     "times and states. "
     "The adaptive integrator returns a step only if its error estimate met the tolerance, reports the step that was actually made and rescales the next step by the documented rule.",
     ["inputs", "histories"], "all right-hand sides, initial values, step sizes, tolerances and sequences of rejected steps",
     "Tests integrate one or two specific equations with loose accuracy, so wrong stage times, norms or step control survive.",
     ["jVMC/stepper.py"], [("Euler, Heun, AdaptiveHeun", "stepper.py")],
     COMMON + "The right-hand side is an uninterpreted function.")

prop("C08", "Local estimates are the sum over all connected configurations",
     "The local estimate of an operator at a sample is the sum over all connected configurations of matrix element times amplitude ratio, leaving out only "
     "matrix elements whose magnitude does not exceed 1e-6. "
     "It is the same for every sample batch size, every number of retained branches, networks that return plain or logarithmic amplitudes, given or recomputed "
     "sample amplitudes, and any call arguments of the operator such as the time; the differentiable estimator function agrees with it.",
     ["inputs", "configurations"], "all operators, configurations, amplitudes, batch sizes and call arguments",
     "Tests compare a few energies; remainder batches, compaction of branches, stale compiled arguments and plain amplitudes are not sampled.",
     ["jVMC/operator/base.py"],
     [("connected configurations", "operator/base.py get_s_primes, _find_nonzero, set_zero_to_zero"), ("local estimate", "operator/base.py get_O_loc, get_O_loc_batched"),
      ("estimator", "operator/base.py get_estimator_function")],
     COMMON + "Operator and amplitudes are uninterpreted functions; the number of branches (<= 3) and, for batching, samples (<= 7) are fixed per obligation.")

prop("C04", "Exact sampling lists every basis state once with its exact probability",
     "Taken over all processes and devices, the exact sampler returns every basis configuration of the given shape and local dimension exactly once with positive count; "
     "entries added as padding carry probability zero. "
     "The probabilities equal |psi|^(1/logProbFactor) normalised over the whole basis, sum to one, belong to the returned log amplitudes, do not depend on earlier calls, "
     "and evaluating at explicitly passed parameters leaves the network's own parameters unchanged.",
     ["inputs", "configurations", "histories"], "all shapes, local dimensions, numbers of processes and devices, parameters and call histories",
     "Tests use one device and a few lattice sizes where the states divide evenly, so padding, offsets and several devices or processes are not exercised.",
     ["jVMC/sampler.py"], [("basis enumeration", "sampler.py ExactSampler.get_basis, _get_basis, _get_basis_ldim2"), ("probabilities", "sampler.py ExactSampler.sample, _compute_probabilities")],
     COMMON + "Number and offset of this process's states are symbolic; devices <= 5, local dimension and sites fixed per obligation.")
prop("C05", "Monte Carlo samples come with matching amplitudes, weights and counts",
     "Every call of the Monte Carlo sampler returns, over all processes and devices, exactly the number of samples it reports, at least the requested number and a multiple "
     "of the requested granularity. "
     "The returned amplitudes are those of the returned configurations at the parameters used for sampling, the weights are proportional to |psi|^(1/logProbFactor - mu) "
     "(uniform for direct sampling) and sum to one globally. "
     "Explicitly passed parameters are used for that call only, and a Markov chain continues from where the previous call left it.",
     ["inputs", "configurations", "histories"], "all requested numbers, chains, granularities, numbers of processes and devices, parameters and call sequences",
     "Tests check averages on one device with the default granularity; counts and weights for other layouts and call sequences are not observed.",
     ["jVMC/sampler.py"], [("sampling interface", "sampler.py MCSampler.sample"), ("MCMC", "sampler.py MCSampler._get_samples_mcmc, _get_samples"), ("direct sampling", "sampler.py MCSampler._get_samples_gen, _randomize_samples")],
     COMMON + "Layout numbers are fixed per obligation; configurations, amplitudes and parameters are symbolic.")
prop("C06", "Markov chains perform valid Metropolis updates targeting |psi|^mu",
     "Each Markov chain update proposes a configuration from the chain's current one and accepts it with probability min(1, |psi(new)/psi(old)|^mu), the log-probability cached "
     "for the chain always being that of its current configuration and current parameters. "
     "The built-in proposals return valid configurations, propose a move and its inverse with equal probability and reach all configurations of their sector. "
     "Thermalisation and the number of updates between samples are exactly as configured, and proposal and acceptance counters count every update once.",
     ["inputs", "histories", "schedules"], "all networks, proposers, configurations, random draws, numbers of chains and updates",
     "Tests only compare sampled averages within statistical error; a stale cached probability, an asymmetric proposal or a miscounted sweep shifts them too little.",
     ["jVMC/sampler.py"], [("Metropolis update", "sampler.py MCSampler._sweep"), ("schedule", "sampler.py MCSampler._get_samples, _mc_init"), ("proposals", "sampler.py propose_*")],
     COMMON + "Random draws are uninterpreted functions of key and position; chains <= 3 and lattice sizes fixed per obligation.")
prop("C20", "Processes, devices, chains, updates and calls use independent random streams",
     "Starting from one key or seed, every MPI process, every device, every chain, every update and every call of the Monte Carlo sampler draws from its own random stream, "
     "never from a key that is used elsewhere, no matter whether the key was given at construction or set later. "
     "The same key reproduces the same samples, and all processes start from identical network parameters.",
     ["configurations", "histories"], "all numbers of processes, devices and chains, all keys and call sequences",
     "Tests run one process and one device and never compare streams.",
     ["jVMC/sampler.py"], [("key distribution", "sampler.py MCSampler.__init__, set_random_key"), ("key use", "sampler.py MCSampler._sweep, _get_samples_gen")],
     COMMON + "jax.random.split is assumed to yield independent streams; number of processes symbolic.")

prop("C09", "Values and gradients belong to their configurations, whatever the batching",
     "Evaluating a variational wave function on an array of configurations returns for each device and position the network's value on exactly that configuration, and "
     "gradients returns its derivative with respect to every entry of the parameter vector in the order of that vector, with real and imaginary parts of complex parameters as separate entries. "
     "Both are independent of batch size, padding, order and grouping of the configurations. "
     "The gradient dictionary contains the same numbers at the places given by the dictionary-to-vector map (real or holomorphic networks).",
     ["inputs", "configurations"], "all networks, parameters, configurations, batch sizes, numbers of samples and devices",
     "Tests use one device, one or two batch sizes and particular networks; a misordered parameter block or a lost remainder batch appears only for other layouts.",
     ["jVMC/vqs.py"], [("evaluation", "vqs.py NQS.__call__, _eval, create_batches, eval_batched"), ("gradients", "vqs.py NQS.gradients, gradients_dict, grad_dict_to_vec_map, flat_gradient*, dict_gradient*")],
     COMMON + "Network is an uninterpreted differentiable function; numbers of devices and samples symbolic, batch size fixed per obligation. JAX differentiation trusted.")
prop("C10", "Parameter vector operations are exact and take effect immediately",
     "After set_parameters(P) the parameter vector read back is P, and after update_parameters(Q) it is the previous vector plus Q; setting what was read changes nothing. "
     "Every later evaluation, gradient, sampler network and direct sampling uses exactly the current parameters, for any history of operations. "
     "Other variable collections of the network, the container type and other wave functions sharing the network are not changed.",
     ["inputs", "histories"], "all networks, parameter vectors and sequences of parameter operations",
     "Tests set parameters once; stale caches or aliasing need a longer history, and misplaced blocks need several parameter arrays.",
     ["jVMC/vqs.py"], [("parameters", "vqs.py NQS.get_parameters, set_parameters, update_parameters, _param_unflatten, params"), ("use", "vqs.py NQS.__call__, get_sampler_net, sample")],
     COMMON + "Network is an uninterpreted function of two parameter arrays; parameter values symbolic.")

prop("C11", "Symmetrised wave functions carry the requested symmetry sector",
     "The orbit built for a chain or a square lattice contains every element of the group generated by the requested symmetries exactly once, and its prefactor is the product of the prefactors of "
     "the generators. "
     "The symmetrised wave function is the prefactor-weighted sum (up to a constant) of the network's amplitude over the orbit (a network with real logarithms needs a positive sum), so it transforms under every element with the corresponding character; "
     "the log and separate averaging variants are invariant averages over the orbit.",
     ["inputs", "configurations"], "all networks, configurations, lattice sizes, symmetry combinations and prefactors",
     "Tests evaluate one small chain and lattice with unit prefactors; a wrong character, a missing element or a wrong composition order shows only in other sectors or sizes.",
     ["jVMC/util/symmetries.py", "jVMC/nets/sym_wrapper.py", "jVMC/vqs.py"],
     [("orbits and prefactors", "util/symmetries.py get_orbit_1D, get_orbit_2D_square, get_maps_*, get_orbits_from_maps_*"), ("symmetrisation", "nets/sym_wrapper.py SymNet, avgFun_*"), ("wave function", "vqs.py NQS orbit argument")],
     COMMON + "Amplitude uninterpreted, configuration and prefactors symbolic; lattice sizes fixed per obligation.")
prop("C12", "Autoregressive networks are normalised and sample what they evaluate",
     "For every autoregressive (RNN) wave function with a real or complex amplitude and real parameters the squared amplitudes (or, with logProbFactor 1, the probabilities) over all configurations add up to one. "
     "Direct sampling draws each configuration with exactly the probability that evaluation assigns to it, site after site in the network's ordering, for every cell type, depth, local dimension and for one and two "
     "dimensions. A network with real-valued output has no phase; otherwise the phase is the sum of the phase outputs of the local states along the configuration, independent of the amplitude outputs.",
     ["inputs", "configurations"], "all parameters, activation functions, cell types, depths, local dimensions and lattice sizes",
     "Tests compare a sampled histogram loosely for one network; wrong order of sites, carries or scaling in rarely used variants is not detected.",
     ["jVMC/nets/rnn1d_general.py", "jVMC/nets/rnn2d_general.py"],
     [("1D", "nets/rnn1d_general.py RNN1DGeneral, cells"), ("2D", "nets/rnn2d_general.py RNN2DGeneral, cells")],
     COMMON + "The activation function is uninterpreted and parameters are symbolic; hidden size, depth and length are fixed per obligation. Two known findings for complex parameters.")
prop("C13", "POVM translation is faithful: states, generators, observables, estimates",
     "The measurement operators are a symmetric informationally complete measurement for all angles, and a state is recovered from its outcome distribution. "
     "The probability-space generator of every unitary, dissipative or imaginary-time term moves the distribution exactly as the corresponding quantum generator moves the state, and observables averaged over the "
     "distribution equal their expectation values; the named one-particle distributions are those of the named states. "
     "Measured magnetisations and connected correlators are the weighted sample averages over all processes and devices with their variance and standard error; registering operators never alters earlier ones.",
     ["inputs", "configurations"], "all angles, operators, distributions, samples, weights, processes and devices; chains and square lattices",
     "Tests evolve three specific models at default angles on one device and never look at error estimates; a sign or index error that vanishes for those models survives.",
     ["jVMC/operator/povm.py"],
     [("translation", "operator/povm.py get_M, matrix_to_povm, get_dissipators, get_unitaries, get_observables, POVM"), ("estimators", "operator/povm.py POVM.evaluate_observable, measure_povm")],
     COMMON + "Angles, operators and distributions are symbolic; matrix inversion is replaced by exact elimination.")
prop("C14", "POVM operators act as the sum of their registered terms",
     "A POVM operator assembled from one-, two- or more-body terms acts on every outcome configuration as the sum over all added terms of strength times the term's matrix element on its sites, with all other sites "
     "unchanged. "
     "This holds for any order, number and overlap of sites, any mixture of sizes, any lattice shape, repeated terms, terms added after the operator was used, and term descriptions shared between operators.",
     ["inputs", "histories"], "all term lists, matrices, strengths and configurations",
     "Tests build three fixed Lindbladians; terms of different size starting at the same site, reversed sites or padding at the lattice edge are not covered.",
     ["jVMC/operator/povm.py"], [("assembly", "operator/povm.py POVMOperator.add, compile"), ("action", "operator/povm.py POVMOperator._get_s_primes")],
     COMMON + "Matrices, strengths and configuration symbolic; term lists with at most four sites are fixed per obligation.")

prop("C15", "TDVP and MinSR updates solve their equations and leave the state untouched",
     "Called at given parameters and time, TDVP returns the solution of q[S] u = -q[x F] with S and F the connected covariances of the sampled gradients and local energies at exactly these parameters and this time, "
     "the diagonal shift included, through the eigen-decomposition with the documented soft cut-offs: the residual reported is that of the returned update and is within pinvTol unless the lower bound pinvCutoff is reached; "
     "the signal-to-noise cut-off acts only for stochastic samplers. MinSR returns -O^+ (O O^+)^(-1) E of the centred, weighted data. Afterwards the wave function has the parameters it had before; energy mean, variance, "
     "TDVP error and residuals refer to the sub-step intStep=0; S_dot and get_S give the covariance matrix and the matrix of the equation of the last call. Results do not depend on the distribution over processes and devices, nor on cross validation being switched on.",
     ["inputs", "histories", "distribution"], "all samples, weights, parameters, prefactors, real/imaginary projection, shifts, tolerances",
     "Tests compare one time trace and ground-state energies of a four-site chain with exact sampling.",
     ["jVMC/util/tdvp.py", "jVMC/util/minsr.py"],
     [("equation", "util/tdvp.py TDVP.get_tdvp_equation, get_sr_equation"), ("solution", "util/tdvp.py TDVP.solve, _transform_to_eigenbasis, _get_snr"),
      ("call", "util/tdvp.py TDVP.__call__, _get_tdvp_error"), ("MinSR", "util/minsr.py MinSR.solve, __call__")],
     COMMON + "eigh, pinv and norm are external contracts; numbers of samples, devices, processes and parameters symbolic; the cut-off loop is followed through all its exits for one value of pinvCutoff (pinvTol symbolic).")

prop("C17", "Output files hold exactly what was written and checkpoints come back",
     "Every observable, metadata record and checkpoint written through the OutputManager appears in the HDF5 file as one further row of its own data set in the group that is current, with the given time in the matching row of "
     "the times; earlier rows, other groups and other data sets are unchanged, for any sequence of groups, names, shapes and re-opened files (append keeps, no append starts anew). "
     "A checkpoint is returned on every process with its own time: by index, by nearest time or the latest. Only the designated process touches the file or prints. "
     "Timings report for every name the time since they were last printed.",
     ["histories", "distribution"], "all sequences of calls, groups, names, shapes, values, ranks",
     "Tests never read back an output file.",
     ["jVMC/util/output_manager.py"],
     [("records", "util/output_manager.py OutputManager.set_group, write_observables, write_metadata, write_dataset, write_error_data"),
      ("checkpoints", "util/output_manager.py OutputManager.write_network_checkpoint, get_network_checkpoint"), ("timings", "util/output_manager.py OutputManager.start_timing, stop_timing, add_timing, print_timings")],
     COMMON + "h5py is an external contract (model of groups, data sets, resize); one call from an arbitrary earlier file is the induction step over histories.")
prop("C18", "Provided networks compute the functions they document",
     "For all parameters and configurations the Boltzmann machines return the sum over hidden units of log cosh(bias + weights . spins), with spins +-1 (0/1 without spin flip) and finite values however large the argument; "
     "feed-forward networks apply their layers and activation functions in order, the last activation repeated; convolutional networks return the normalised sum of the last layer of convolutions over the periodic or "
     "zero-continued lattice, so with periodic boundaries and unit strides they are invariant under translations; CpxCNNSym is the average over all symmetry operations; two networks combine to amplitude + i phase, "
     "the amplitude alone being used for sampling. Parameters are real or complex as documented.",
     ["inputs", "configurations"], "all parameters, configurations, activation functions; lattices, filters, strides, bias options",
     "Tests check translation invariance of one real convolutional network and nothing else about the values.",
     ["jVMC/nets/rbm.py", "jVMC/nets/ffn.py", "jVMC/nets/cnn.py", "jVMC/nets/two_nets_wrapper.py", "jVMC/nets/activation_functions.py"],
     [("RBM", "nets/rbm.py CpxRBM, CpxRBM_Nospinflip, RBM; nets/activation_functions.py log_cosh"), ("FFN", "nets/ffn.py FFN"), ("CNN", "nets/cnn.py CNN, CpxCNN, CpxCNNSym"), ("two networks", "nets/two_nets_wrapper.py TwoNets")],
     COMMON + "Activation functions uninterpreted, parameters and configuration symbolic; network and lattice sizes fixed per obligation; flax Dense and Conv are executed, not assumed. RBM (real) is claimed for chains only.")
prop("C19", "Measurement, ground-state search and network set-up do what they report",
     "measure returns for every named operator, with its own arguments, the weighted mean, variance and standard error of its local estimates over one common set of samples of the requested size, on all processes and devices. "
     "ground_state_search performs Euler steps along the search equation from the parameters of the step before, stops after numSteps or at the first variance within varianceTol, lets the diagonal shift decay by 0.95 per "
     "step, and records observables of the initial state and of the state after every step. init_net returns the network(s), activation functions, symmetries and prefactors described, reproducibly, without modifying the description.",
     ["inputs", "histories"], "all operators, samples, weights, step sizes, stopping points and descriptions",
     "Tests use measure and init_net once each as tools and check none of their results.",
     ["jVMC/util/util.py"], [("measure", "util/util.py measure"), ("search", "util/util.py ground_state_search"), ("set-up", "util/util.py init_net")],
     COMMON + "measure is proved through the contracts of global_mean/global_variance; the search loop is unrolled for at most four steps; init_net for fixed network sizes with symbolic parameters.")

#--MORE--


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    m = dict(version=1, setup_cmd="python3 tools/selftest.py",
             checks=[dict(property=p["id"], quick_cmd="python3 run_check.py %s quick" % p["id"], thorough_cmd="python3 run_check.py %s thorough" % p["id"],
                          technique=p["_tech"], level="proof", level_note=p["_note"]) for p in sorted(P, key=lambda p: p["id"])],
             not_applicable=NA,
             notes="Fixes of genuine defects in /repo are listed in known_findings.json; no hooks are needed in /repo.")
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


NA = []
if __name__ == "__main__":
    main()
