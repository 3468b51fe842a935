#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (committed; run by hand after editing)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note, tech):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, note=note, tech=tech))


I, C, H, F, S, G = "inputs", "configurations", "histories", "fault_sequences", "schedules", "programs"

prop("C01", "Operators have exactly the matrix elements of their definition",
     "For every operator assembled from products of local operators, numbers and (time dependent) prefactor functions, in any association and order of construction, the connected configurations and matrix "
     "elements returned for a batch of configurations equal those of the operator's definition (rightmost factor first, projectors and lowering operators annihilate where they must, equal strings are summed). "
     "Adding terms later, evaluating with other arguments, other batch sizes, lattice shapes, device counts or numbers of MPI processes does not change the value of any element. The objects passed in are not modified.",
     [G, I, H, C], "all operator strings (length, sites, local dimension, prefactor functions and arguments), all batches, all add/evaluate histories, all device and process counts",
     "The tests evaluate a handful of fixed strings on a handful of configurations; none has many (>= 50) prefactors on several processes, prefactors with positional arguments in products, or terms added after use.",
     ["jVMC/operator/branch_free.py", "jVMC/operator/base.py"],
     [("BranchFreeOperator.compile / _get_s_primes: tables idx, map, matEls, diag padded per string", "jVMC/operator/branch_free.py"), ("OpStr/LocalOp products, scal_opstr", "jVMC/operator/branch_free.py"), ("Operator.get_s_primes", "jVMC/operator/base.py")],
     ["BranchFreeOperator.get_s_primes"], "Random operator histories against a dense reference interpreter of the operator language; small lattices (<= 2^6 configurations); elements below 2e-6 may be dropped.",
     "property-based testing: generated operator histories vs dense reference interpreter")
prop("C02", "Fermionic operators obey the canonical anticommutation relations",
     "Strings of fermionic creation, annihilation and number operators act with the Jordan-Wigner signs of the flattened site order on one- and two-dimensional lattices, so that {c_i, c_j^+} = delta_ij and "
     "{c_i, c_j} = {c_i^+, c_j^+} = 0 hold as matrices, and number operators equal c^+ c. This is true for strings of any length, mixed with spin operators and prefactors, and for any device layout.",
     [G, I, C], "all strings and site pairs, all lattices (1D/2D), all configurations", "The tests check one 1D chain with fixed pairs; 2D masks and longer mixed strings are never evaluated.",
     ["jVMC/operator/branch_free.py"], [("fermionic flag, Jordan-Wigner mask and sign accumulation in BranchFreeOperator", "jVMC/operator/branch_free.py")],
     ["BranchFreeOperator.get_s_primes"], "Generated strings against a dense second-quantised model, plus dense anticommutators over the full basis (<= 6 modes).",
     "property-based testing: algebraic identities (CAR) and dense reference model")
prop("C03", "Local estimators equal the full sum over connected configurations",
     "The local estimator O_loc(s) = sum_s' <s|O|s'> psi(s')/psi(s) of any operator (built from strings, user-defined, or Lindbladian) equals the dense sum for every ansatz, for logarithmic and plain amplitudes, with given or "
     "recomputed amplitudes, and with operator arguments. The result is independent of the estimator batch size, the network batch size, the number of samples (including remainders and repeated calls with other sizes) and the device count. "
     "The differentiable estimator function returns the same values at any parameters.",
     [I, H, C], "all operators, ansaetze, batch sizes, sample numbers and call histories", "The tests compare one batch size with the unbatched result for a few operators; remainders, changing sample numbers, plain amplitudes and user-defined operators are not covered.",
     ["jVMC/operator/base.py"], [("Operator.get_O_loc / get_O_loc_batched / get_O_loc_unbatched, get_estimator_function", "jVMC/operator/base.py")],
     ["Operator.get_O_loc", "Operator.get_estimator_function"], "Exactly known amplitude tables and dense sums; <= 64 configurations, <= 11 samples per device.",
     "property-based testing: dense-sum oracle and batching metamorphic relation")
prop("C04", "The POVM representation reproduces density-matrix quantum mechanics",
     "For every pair of measurement angles the POVM elements are positive, sum to one and invert through the overlap matrix, and the matrices obtained for unitary, dissipative, imaginary-time and observable maps act on outcome "
     "probabilities exactly as the commutator, the Lindblad dissipator, the anticommutator and the expectation value act on the density matrix. Registered operators are available under their names and nothing registered earlier changes. Product states are represented by their outcome probabilities, and unknown names and modes are refused.",
     [I, H], "all angles, all 1- and 2-qubit matrices and mixed states, all registration histories", "The tests use the default POVM and built-in Pauli operators only.",
     ["jVMC/operator/povm.py"], [("get_M, get_dissipators, get_unitaries, get_observables, matrix_to_povm", "jVMC/operator/povm.py"), ("POVM.add_unitary/add_dissipator/add_imaginary", "jVMC/operator/povm.py")],
     ["jVMC.operator.povm.matrix_to_povm", "POVM.operators", "POVM.observables", "get_1_particle_distributions"], "Random angles/matrices/states against dense density-matrix algebra (1-2 qubits).",
     "property-based testing: differential oracle (density-matrix equation of motion)")
prop("C05", "POVM Lindbladians and POVM measurements are exact",
     "A Lindbladian assembled from any list of built-in or custom one- to four-body terms in any order, with repeated or overlapping supports and terms added after use, has on every outcome configuration exactly the matrix elements of the dense "
     "superoperator, and the descriptions passed in are left unchanged. The reported observables equal the weighted means, variances, Monte Carlo errors and connected correlators of the given outcome samples on 1D and 2D lattices for every device and process layout.",
     [G, I, H, C], "all term lists, lattices, outcome samples, weights, device and process layouts", "The tests compare two fixed models on a chain; overlapping/reordered supports, shared dictionaries, 2D lattices with several devices and the Monte Carlo errors are not covered.",
     ["jVMC/operator/povm.py", "jVMC/util/util.py"], [("POVMOperator.add/compile: grouping of terms per max body number", "jVMC/operator/povm.py"), ("measure_povm, POVM.evaluate_observable", "jVMC/operator/povm.py")],
     ["POVMOperator.get_s_primes", "measure_povm"], "Row-by-row dense superoperator (<= 4 sites) and numpy statistics of given samples.",
     "property-based testing: dense superoperator and numpy statistics oracle")
prop("C06", "A variational state returns the log-amplitudes its network defines",
     "For every network of the library (restricted Boltzmann machines, feed-forward, convolutional with any filter, stride, activation and boundary condition, amplitude-phase pairs) and for user-defined networks, the log-amplitude returned for a configuration "
     "is the function of parameters and configuration the network's definition states. It depends neither on the batch the configuration is in, nor on the batch size, the remainder of the last batch, the device count or earlier calls with other shapes.",
     [I, C, H], "all networks, hyperparameters, parameters, configurations, batch sizes, device counts and call sequences", "The tests only check that networks run or reproduce a single stored number, with one or two batch sizes.",
     ["jVMC/vqs.py", "jVMC/nets/rbm.py", "jVMC/nets/ffn.py", "jVMC/nets/cnn.py", "jVMC/nets/two_nets_wrapper.py", "jVMC/nets/activation_functions.py"],
     [("eval_batched, NQS.__call__ caching of pmapped functions", "jVMC/vqs.py"), ("network __call__ definitions", "jVMC/nets")], ["NQS.__call__"],
     "Independent numpy forward passes from the raw parameters; small lattices; tolerance 1e-9.", "property-based testing: independent reference implementation + batching metamorphic relation")
prop("C07", "Reported gradients are the derivatives of the log-amplitude",
     "For every network (real, holomorphic, complex non-holomorphic, amplitude-phase pair, symmetrised, recurrent) the gradients returned for a batch are the derivatives of the log-amplitude with respect to the entries of the flat parameter vector, in its order. "
     "They do not depend on batch size, device count or the parameters used before, and the gradient dictionary agrees with the flat gradients. Whether a network is treated as holomorphic is decided correctly.",
     [I, C, H], "all networks, parameters, configurations, batch and device layouts", "The tests compare a few networks at one point; remainders and mixed leaf orders are not covered.",
     ["jVMC/vqs.py", "jVMC/nets/two_nets_wrapper.py"], [("flat_gradient / flat_gradient_cpx_nonholo / flat_gradient_holo, is_holomorphic detection", "jVMC/vqs.py"), ("eval_batched", "jVMC/vqs.py")],
     ["NQS.gradients", "NQS.gradients_dict", "NQS.holomorphic"], "Central finite differences of the state's own evaluation along every parameter direction.", "property-based testing: finite-difference oracle")
prop("C08", "The flat parameter vector is the state",
     "Whatever sequence of initialisation, setting (by vector, by parameter tree, by attribute), updating, evaluating and differentiating is performed, the parameter vector read back is the one last set plus the updates since, and evaluation and gradients are those of a fresh state carrying that vector. "
     "Two states never influence each other, and reading or evaluating never changes parameters.",
     [H, I, C], "all networks and operation histories on one or two states", "The tests set parameters once and read them once.",
     ["jVMC/vqs.py"], [("NQS.set_parameters / update_parameters / get_parameters / _param_unflatten, paramShapes", "jVMC/vqs.py")], ["NQS.parameters", "NQS.get_parameters", "NQS.set_parameters", "NQS.update_parameters"],
     "Model-based histories with a plain vector as the model.", "stateful model-based testing")
prop("C09", "Symmetry orbits are complete and symmetrised states carry the quantum numbers",
     "The orbit generated from translations, reflections, rotations and spin flips with consistent quantum-number factors contains every element of the generated group exactly once with its character. "
     "Symmetrised states equal the chosen average of the bare network over that orbit (or over a user-defined list of operations) and, for a group, transform with the factor of each group element, and convolutional networks with symmetric construction are invariant under the translations they promise.",
     [I, C], "all lattices, symmetry subsets, factors, networks, averaging functions, configurations", "The tests compare orbits for a few lattices by size and check one or two symmetric networks.",
     ["jVMC/util/symmetries.py", "jVMC/nets/sym_wrapper.py", "jVMC/nets/cnn.py"], [("get_orbit_1D / get_orbit_2D_square, LatticeSymmetry", "jVMC/util/symmetries.py"), ("SymNet.eval, avgFun_*", "jVMC/nets/sym_wrapper.py")],
     ["get_orbit_1D", "get_orbit_2D_square", "NQS(SymNet)"], "Breadth-first group closure and numpy symmetrisation; 1D L<=7, 2D L<=4.", "property-based testing: group model and covariance (metamorphic) oracle")
prop("C10", "Autoregressive networks are normalised and sampled exactly",
     "For every recurrent network (1D/2D, vanilla/LSTM/GRU, any depth, hidden size, local dimension, real parameters) the probabilities |psi|^(1/kappa) of all configurations sum to one, conditional probabilities do not depend on later sites, and the directly drawn samples follow exactly the assigned distribution. "
     "This includes its use as amplitude of an amplitude-phase pair and draws on several devices.",
     [I, C], "all architectures, hyperparameters, parameters and random keys", "The tests check normalisation of few default networks and compare histograms for one.",
     ["jVMC/nets/rnn1d_general.py", "jVMC/nets/rnn2d_general.py", "jVMC/vqs.py"], [("RNN1DGeneral/RNN2DGeneral __call__ and sample, snake path in 2D", "jVMC/nets"), ("NQS.sample", "jVMC/vqs.py")],
     ["NQS.__call__", "NQS.sample"], "Full enumeration plus chi-square tests at 1e-8; small lattices.", "property-based testing: exhaustive normalisation and statistical oracle")
prop("C11", "The exact sampler enumerates every basis state with its probability",
     "The exact sampler returns every basis state of the lattice exactly once across all devices and processes (padding carries weight zero), with weight |psi|^(1/kappa)/Z of the current (or explicitly given) parameters and the matching log-amplitude, for amplitudes of any magnitude. "
     "Sampling with explicit parameters leaves the state's own parameters untouched, in any history of calls.",
     [I, C, H], "all lattices, local dimensions, amplitudes, device/process layouts and histories", "The tests use one lattice with a power-of-two basis, one layout and moderate amplitudes.",
     ["jVMC/sampler.py"], [("ExactSampler.get_basis, sample, _get_probabilities", "jVMC/sampler.py")], ["ExactSampler.sample"], "Amplitude tables with offsets up to +-2000; 1-7 devices, 1-3 processes.", "stateful property-based testing: enumeration oracle")
prop("C12", "Monte Carlo samples follow the advertised distribution",
     "For every ansatz, exponent mu, symmetric update rule, probability factor and history of calls, parameter changes and new keys, the configurations drawn follow |psi|^mu of the parameters in use within the connected sector and the returned weights, normalised over all samples, are those that turn them into |psi|^(1/kappa) averages. "
     "Devices, processes and consecutive calls use independent random numbers, returned log-amplitudes belong to the returned configurations, and the acceptance ratio is that of the Metropolis rule; directly sampled (also symmetrised) recurrent networks are drawn from their own distribution.",
     [I, C, H], "all ansaetze, mu, proposers, layouts and call histories", "The tests compare histograms for three fixed configurations after one call.",
     ["jVMC/sampler.py", "jVMC/vqs.py"], [("MCSampler._get_samples_mcmc / _sweep / _get_samples_gen", "jVMC/sampler.py"), ("set_random_key per device/process", "jVMC/sampler.py")],
     ["MCSampler.sample", "MCSampler.acceptance_ratio"], "Chi-square tests (1e-9) against enumerated distributions; seeds fixed by the case, so results are reproducible.", "stateful property-based testing: statistical oracle over call histories")
prop("C13", "Samplers return the samples they report, from valid symmetric moves",
     "A sampling call returns at least the requested number of samples, a multiple of what was asked for, at most a layout-dependent remainder more, and exactly the number it reports, with consistent shapes and weights summing to one on any number of devices and processes; the same seed gives the same samples. "
     "Every update proposer stays in the local basis, changes what it documents, is symmetric and connects its sector on lattices of any dimension.",
     [I, C], "all chain numbers, requested numbers, multiples, layouts, lattices", "The tests use one request that fits the layout and the spin-flip proposer.",
     ["jVMC/sampler.py", "jVMC/mpi_wrapper.py"], [("MCSampler.sample: multipleOf, distribute_sampling", "jVMC/sampler.py"), ("propose_*", "jVMC/sampler.py")], ["MCSampler.sample", "propose_* functions"],
     "Enumeration of layouts and empirical transition matrices over all configurations.", "property-based testing: bookkeeping invariants and transition-matrix symmetry")
prop("C14", "Distributed reductions equal their serial definition",
     "Sums, weighted means, variances, covariances and gathers over data distributed over any number of processes and devices equal the numpy result on the gathered data, for every rank, dtype and uneven split, on every process. "
     "Work distribution assigns every sample to exactly one process with consistent totals and offsets, and broadcasts of arrays of unknown size deliver the root's data.",
     [I, C], "all data shapes, dtypes, weights, splits, device and process counts", "The tests use a single process and one shape.",
     ["jVMC/mpi_wrapper.py", "jVMC/global_defs.py"], [("global_sum/mean/variance/covariance, gather, distribute_sampling, first_sample_id, bcast_unknown_size", "jVMC/mpi_wrapper.py")],
     ["jVMC.mpi_wrapper functions"], "1-4 processes x 1-4 devices, numpy oracle on gathered data.", "property-based testing: differential (serial numpy) oracle over layouts")
prop("C15", "Sample statistics equal their weighted definition",
     "Mean, variance, covariance (with itself or another observable), variance of the covariance and tangent kernel of weighted observations, and of every observable derived by transformation, linear transformation, selection, subset or covariance data, equal their weighted definition on the underlying samples for every layout. "
     "For estimators the mean at other parameters and its gradient equal the exact expectation value and its derivative.",
     [I, C, H], "all data, weights, chains of derived observables, layouts", "The tests check mean/covariance on one data set and one derived step.",
     ["jVMC/stats.py"], [("SampledObs: _data, _weights, derived objects", "jVMC/stats.py")], ["SampledObs methods"], "numpy recomputation after every step of random chains; finite differences for gradients.", "stateful property-based testing: numpy model of derived observables")
prop("C16", "The TDVP update solves the regularised equation of motion",
     "The update returned equals the regularised solution of S thetadot = -prefactor F computed from the very samples used: quantum metric and force with the requested real/imaginary part and diagonal shift, spectral cutoffs and signal-to-noise regularisation as documented. "
     "For a complete ansatz it is the exact time derivative of the state; reported energy, variance, residual and error measures equal their definitions, and integrator stages, earlier calls, parameter changes and layouts do not influence each other.",
     [I, C, H], "all ansaetze, operators, samplers, regularisation parameters, call histories and layouts", "The tests run one model with one setting and compare an energy.",
     ["jVMC/util/tdvp.py", "jVMC/stats.py"], [("TDVP.get_tdvp_equation / solve / __call__ / S_dot", "jVMC/util/tdvp.py")], ["TDVP.__call__", "TDVP.get_*", "TDVP.S_dot"],
     "Dense numpy recomputation; degenerate spectra skipped where the SNR is basis dependent.", "property-based testing: dense linear-algebra oracle over solver histories")
prop("C17", "MinSR returns the minimum-norm least-squares update",
     "The minimum-step update equals the minimum-norm solution of the least-squares problem defined by the samples used, for holomorphic, real and complex-output ansaetze, exact and Monte Carlo samplers, any device/process layout and pseudo-inverse tolerance. "
     "Reported energies and variances are those of the samples, and neither earlier calls nor other settings influence the result.",
     [I, C, H], "all ansaetze, operators, samplers, tolerances, histories, layouts", "The tests run one ground-state search and compare an energy.",
     ["jVMC/util/minsr.py"], [("MinSR.solve / __call__", "jVMC/util/minsr.py")], ["MinSR.__call__"], "numpy pseudo-inverse oracle; near-threshold spectra skipped.", "property-based testing: linear-algebra oracle")
prop("C18", "Integrators make documented steps and control the error",
     "Euler and Heun steps equal their formulas for any right hand side, state type and history. The adaptive integrator returns the accepted state, the step size it corresponds to and never accepts a step whose estimated error exceeds the tolerance, respects the maximal step size, evaluates the right hand side at the right times and intermediate states, and converges to exact solutions within the tolerance; "
     "the right hand side receives the documented stage information and extra arguments.",
     [I, H], "all right hand sides, tolerances, norms, step histories", "The tests integrate one fixed linear problem.",
     ["jVMC/util/stepper.py"], [("Euler.step, AdaptiveHeun.step", "jVMC/util/stepper.py")], ["stepper.step return values and calls of f"], "Recorded right-hand-side calls compared with independent formulas; exact linear solutions.", "stateful property-based testing: recorded-call reference model")
prop("C19", "The output file contains exactly what was written",
     "Through every history of writing observables, metadata, network checkpoints, error data and datasets, group changes, re-opening with or without append, and several processes sharing the file, the file contains exactly what was written, in order and complete. "
     "Checkpoints are retrieved with the time and parameters they were written with, by index and by time, and timings are accumulated as run.",
     [H, C], "all operation histories, data shapes, process counts", "The tests do not cover the output manager apart from use in one run.",
     ["jVMC/util/output_manager.py"], [("OutputManager write_* / get_network_checkpoint / set_group / timings", "jVMC/util/output_manager.py")], ["HDF5 file content", "get_network_checkpoint"],
     "Dictionary model compared with the complete HDF5 tree after each re-opening.", "stateful model-based testing (HDF5 tree vs dictionary model)")
prop("C20", "High-level workflows do what their building blocks define",
     "A network description always yields the state its entries describe (network, symmetries, two-network combination, batch size, seed, sampler compatibility) and is left unchanged; measurements of any dictionary of operators with arguments report mean, variance and Monte Carlo error of the very samples used. "
     "Ground-state searches perform exactly the documented imaginary-time steps, stop at the tolerance, and record the observables and energies of the states visited.",
     [I, C, H], "all network descriptions, operator dictionaries, samplers, search settings", "The tests call each function once with a fixed setting.",
     ["jVMC/util/util.py"], [("init_net, measure, ground_state_search", "jVMC/util/util.py")], ["return values and output file"], "Hand-assembled reference networks and dense trajectories.", "property-based testing: reference assembly and dense trajectory oracle")
prop("C21", "Complete simulations follow the exact equation of motion",
     "A complete simulation with a complete ansatz (exact sampling, TDVP, integrator, possibly time-dependent operator) reproduces the exact solution of the Schroedinger, imaginary-time or Lindblad equation within the accumulated integrator tolerance, on every device/process layout. "
     "For incomplete ansaetze real-time evolution conserves the energy and imaginary-time evolution lowers it.",
     [I, C, H], "all small models, ansaetze, integrators, layouts, simulation lengths", "The tests follow one model for a short time against stored values.",
     ["jVMC/util/tdvp.py", "jVMC/util/stepper.py", "jVMC/sampler.py", "jVMC/operator", "jVMC/vqs.py"], [("interplay of operator, sampler, TDVP and stepper", "jVMC")], ["final state"], "Exact propagation with scipy; 2-3 sites.", "property-based testing: end-to-end differential oracle (exact propagation)")
prop("C22", "Selecting devices changes where computations run, not their results",
     "After any history of device selections (subsets of the available devices in any order, single devices, returning to earlier selections), device_count() and devices() report the current selection, the results of networks, operators, samplers and TDVP equations built afterwards are laid out over exactly the selected devices, "
     "and these as well as all global reductions and statistics have the values of the device-independent definition; chains on different devices are independent.",
     [H, C, I], "all selection histories (subset, order, repetition) on any number of devices and processes, all tasks run in between",
     "The tests only select everything or the first device and run network evaluations; no test switches devices between reductions or statistics, permutes them, or uses a subset without device 0.",
     ["jVMC/global_defs.py", "jVMC/mpi_wrapper.py", "jVMC/stats.py"], [("set_pmap_devices, pmap_devices_updated, device_count", "jVMC/global_defs.py"), ("jit_my_stuff (lazy re-compilation of helpers after a change of devices)", "jVMC/mpi_wrapper.py"), ("jit_my_stuff", "jVMC/stats.py")],
     ["device_count", "devices", "results and their placement"], "Dense numpy references that know nothing about devices; 2-5 virtual CPU devices, 1-2 processes.", "stateful property-based testing: histories of device selections vs device-free reference")

prop("C23", "Initial parameters depend on the network and the seed only",
     "The initial parameters of every network of the library are determined by its definition and the seed alone: they are the same whichever call brings the state into being (evaluation, gradients, exact, Markov chain or direct sampling), whatever configurations, batch sizes and device selection are used, "
     "whatever other states exist, and on every process. They are finite double precision numbers with finite amplitudes, and other seeds give other parameters.",
     [H, C, I], "all networks, seeds, first calls, batches, batch sizes, device selections and numbers of processes",
     "The tests initialise each network once, on one process, by one kind of call; processes that start from different parameters would corrupt every distributed run without failing a test.",
     ["jVMC/vqs.py", "jVMC/nets", "jVMC/sampler.py"], [("NQS.init_net", "jVMC/vqs.py"), ("initialisation by the samplers", "jVMC/sampler.py"), ("initializers", "jVMC/nets/initializers.py")],
     ["NQS.get_parameters of new states"], "Metamorphic: all ways of creating the same state must agree bitwise; 1-4 virtual devices, 1-3 processes.", "property-based testing: metamorphic relation between all ways to initialise a state")
prop("C24", "A simulation resumed from a checkpoint continues as if uninterrupted",
     "Whenever a simulation that records observables, metadata and network checkpoints dies after any completed step, a new run that re-opens the file, retrieves a checkpoint (the last, by index or by time) and sets up all objects anew (other initial parameters, batch size, device selection) reproduces the parameters, times and observables of the uninterrupted run, "
     "and the file contains the records of both runs completely and in order; this holds for repeated interruptions, when going back to earlier checkpoints in a new group, and with several processes.",
     [F, H, C], "all interruption points and sequences, ways of retrieval, layouts before and after, networks and equations of motion",
     "No test writes a checkpoint, let alone continues a simulation from one.",
     ["jVMC/util/output_manager.py", "jVMC/vqs.py", "jVMC/util/tdvp.py", "jVMC/util/stepper.py"], [("write_* / get_network_checkpoint / set_group", "jVMC/util/output_manager.py"), ("NQS.set_parameters", "jVMC/vqs.py"), ("no hidden state in TDVP and steppers", "jVMC/util")],
     ["parameters and HDF5 file of the resumed run"], "Differential: the uninterrupted run; exact sampling; 1-4 virtual devices, 1-2 processes; the dead run's objects are kept alive without clean-up.", "property-based testing with injected interruptions, differential against the uninterrupted run")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
            assert len(p["title"]) <= 80, p["title"]
    man = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import jax, flax, h5py, mpi4py, scipy' && python3-vt -c 'import hypothesis'",
           "checks": [{"property": p["id"], "quick_cmd": "/opt/venv/bin/python run.py %s --tier quick" % p["id"], "thorough_cmd": "/opt/venv/bin/python run.py %s --tier thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": p["tech"], "level": "exploration", "level_note": p["note"]} for p in P],
           "not_applicable": [], "notes": "No hooks in /repo: every check observes the public API. Checks import jVMC directly from /repo's working tree."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
