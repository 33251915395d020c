OP = "jVMC/operator/"
prop("C01", "Operators have exactly the matrix elements of the strings they were built from",
     "An operator assembled from strings of local operators connects every basis configuration to exactly the "
     "configurations, with exactly the summed matrix elements, that the product of its local factors (rightmost first, "
     "fermionic signs included) prescribes. This holds for every configuration, number of sites and devices, local "
     "dimension, configuration shape and prefactor; only elements below the documented 1e-6 threshold may be dropped. "
     "Building further operators or evaluating the operator before does not change the result.",
     ["inputs", "configurations", "programs"], "all configurations, prefactors, string compositions, device counts",
     "tests compare a handful of fixed Hamiltonians on fixed samples",
     [OP + "branch_free.py", OP + "base.py"],
     [("operator compilation and s' evaluation", OP + "branch_free.py BranchFreeOperator.compile"),
      ("compaction of zero elements", OP + "base.py Operator.get_s_primes")],
     "solver verdict over all configurations and couplings in bounds (2-4 sites, 2-4 levels, 1-2 devices)")
prop("C02", "Local estimators equal the exact ratio (O psi)(s)/psi(s)",
     "The local estimator of an operator in a variational state equals the sum over connected configurations of matrix "
     "element times amplitude ratio, for every sample, parameter value and amplitude convention. It is independent of "
     "batch size, number of devices and of whether the reference log-amplitudes are passed in; the functional form "
     "used for gradients gives the same value at the same parameters.",
     ["inputs", "configurations"], "all samples, amplitudes, batch sizes (divisors or not), devices",
     "tests use a few batch sizes, one network and random samples",
     [OP + "base.py", "jVMC/vqs.py"],
     [("get_O_loc, get_O_loc_batched, get_estimator_function", OP + "base.py"),
      ("network evaluation", "jVMC/vqs.py NQS.__call__")],
     "solver verdict over arbitrary amplitude tables on 2-3 sites; exp handled exactly as an algebraic symbol")
prop("C03", "Built-in spin and fermion operators obey their defining algebra",
     "The built-in fermionic operators satisfy the canonical anticommutation relations with a consistent sign "
     "convention on every pair of modes and every configuration, and the number operator equals creation times "
     "annihilation. The built-in spin operators square to one, anticommute on a site, commute between sites, are "
     "hermitian with the documented values on basis states, and the ladder operators are mutually adjoint with the "
     "right commutator.",
     ["inputs"], "all configurations and all (pairs of) sites",
     "tests check fixed Hamiltonians whose spectrum is insensitive to most sign conventions",
     [OP + "branch_free.py"],
     [("local operator tables", OP + "branch_free.py Sx, Sy, Sz, Sp, Sm, creation, annihilation, number"),
      ("fermionic sign mask", OP + "branch_free.py BranchFreeOperator.compile")],
     "solver verdict over all configurations and symbolic site indices on 1-4 sites; two known findings about the "
     "relative orientation of Sy")
prop("C04", "Operator prefactors: scalar and time-dependent factors multiply as written",
     "Scalars and functions used as prefactors of operator strings multiply to the product as written, in any nesting, "
     "order and for any number of call arguments, and are evaluated at the arguments of the current call. Rescaling a "
     "string never alters the original string or operators already containing it. With many prefactors the result is "
     "the same on any number of processes.",
     ["inputs", "programs", "configurations"], "all prefactor values, times, nestings, process counts in bounds",
     "tests evaluate one time-dependent coupling on one process",
     [OP + "branch_free.py"],
     [("operator strings and scaling", OP + "branch_free.py OpStr, scal_opstr"),
      ("distributed prefactor evaluation", OP + "branch_free.py BranchFreeOperator._get_s_primes / arg preprocessor")],
     "solver verdict; MPI is a simulated communicator with exact collective semantics")
MW = "jVMC/mpi_wrapper.py"
prop("C05", "Samples are divided over processes, devices and chains without loss or overlap",
     "For any number of samples, processes, devices and chains the per-process shares are contiguous, disjoint and add "
     "up to the reported total, shares differ by at most one unit of distribution, and the reported total is never "
     "less than requested nor more than one extra round per device-chain group. Each process' first global sample "
     "index is consistent with its share.",
     ["inputs", "configurations"], "any number of samples up to 1e9, chains up to 512, process counts in bounds",
     "tests run with one process",
     [MW, "jVMC/sampler.py"],
     [("distribute_sampling, first_sample_id", MW)],
     "solver verdict over unbounded-precision integers for the sample and chain counts; process/device counts fixed per harness")
prop("C06", "Global sums, means, variances and covariances are those of the pooled data",
     "The global reductions return on every process the sum, weighted mean, weighted variance and weighted covariance "
     "of the data pooled over all samples, devices and processes, for any data type and data shape, uneven splits "
     "included. Gathering and broadcasting return every process the same data in global order. Results do not depend "
     "on earlier reductions.",
     ["inputs", "configurations", "histories"], "all data and weight values; shapes, devices, processes in bounds",
     "tests run on one process with random data",
     [MW], [("global_sum, global_mean, global_variance, global_covariance, gather, bcast", MW)],
     "solver verdict over arbitrary complex data; up to 3 processes x 3 devices; simulated communicator")
prop("C07", "Sampled-observable statistics equal the textbook weighted estimators",
     "Mean, variance and covariance of sampled data, per-sample covariance data and their variance, and the results of "
     "transforming, selecting and subsetting are the textbook weighted estimators on the pooled data, whatever the "
     "distribution over devices and processes. Taking a subset renormalises the weights. The estimator's mean and "
     "gradient at given parameters are the weighted mean and its derivative.",
     ["inputs", "configurations"], "all data values and weights; shapes, devices, processes in bounds",
     "tests compare against numpy on one data set and one process",
     ["jVMC/stats.py", MW], [("SampledObs", "jVMC/stats.py")],
     "solver verdict over arbitrary data and positive weights")
SA = "jVMC/sampler.py"
prop("C08", "Exact sampling enumerates the whole basis once with normalised probabilities",
     "Exact sampling returns every basis configuration once over all processes and devices, with weight proportional "
     "to exp(Re log-amplitude / logProbFactor) normalised over the whole basis, and padding with zero weight. "
     "Returned log-amplitudes belong to the returned configurations. This holds for any local dimension, configuration "
     "shape, device and process count, and for parameters given by the caller, which leave the stored ones unchanged.",
     ["inputs", "configurations"], "all amplitude tables; system sizes, local dimensions, devices, processes in bounds",
     "tests use one or two system sizes on one process",
     [SA], [("ExactSampler.get_basis, sample, _normalize", SA)],
     "solver verdict over arbitrary complex log-amplitudes; 1-4 sites, 2-5 levels, up to 8 devices, 3 processes")

prop("C09", "Markov chains follow the Metropolis rule and are independent of each other",
     "Each Markov chain moves by the Metropolis rule for the distribution |psi|^mu: a proposed configuration is accepted "
     "with probability min(1, |psi(new)/psi(old)|^mu) and otherwise the chain stays. Samples are the states after each "
     "sweep of the configured length, after the configured thermalisation, and later calls continue the chain. Chains "
     "on one device, different devices and different processes are statistically independent, also after setting a new "
     "random key, and the acceptance ratio is the accepted fraction of the last call's proposals.",
     ["inputs", "histories", "schedules"], "all amplitude tables and all outcomes of the random draws, in bounds",
     "tests compare histograms of one random run against one network",
     [SA], [("MCSampler._sweep, _get_samples, _mc_init, acceptance_ratio, set_random_key", SA)],
     "exact probability of every sequence of samples, computed symbolically by integrating out every draw; 1-3 spins, "
     "1-3 chains, 2 devices, 2 processes")
prop("C10", "Samples come with their own log-amplitudes and globally normalised weights",
     "A call of the Monte Carlo sampler returns valid configurations together with exactly their log-amplitudes at the "
     "requested parameters and weights proportional to |psi|^(1/kappa - mu), normalised over all devices and processes "
     "(equal weights for direct sampling). The number of samples is at least the requested or default number, a "
     "multiple of the requested unit per device, without excess beyond one unit per device, and equals the number "
     "reported. The network's own parameters are unchanged afterwards.",
     ["inputs", "configurations", "histories"], "all amplitude tables, all outcomes of the random draws, sample counts in bounds",
     "tests use one process, and mostly mu=2 where all weights are equal",
     [SA, MW], [("MCSampler.sample, _get_samples_mcmc, _get_samples_gen", SA)],
     "solver verdict for every outcome of every draw; 1-2 spins, up to 8 samples, 2 devices, 2 processes")
prop("C11", "Update proposals are valid, symmetric and reach every neighbour",
     "Every built-in update proposer produces valid configurations of the same shape only, proposes s' from s with "
     "exactly the probability with which it proposes s from s', and can reach every configuration its move set "
     "describes (every single spin flip, also combined with a global flip, every exchange of opposite spins within the "
     "zero-magnetisation sector, every other outcome on every site).",
     ["inputs", "schedules"], "every configuration and every outcome of the random draws, in bounds",
     "tests only look at histograms of whole Markov chains with one proposer",
     [SA], [("propose_spin_flip, propose_spin_flip_Z2, propose_spin_flip_zeroMag, propose_POVM_outcome", SA)],
     "exact proposal probabilities by integrating out every draw; 1-6 sites, one- and two-dimensional")
VQ = "jVMC/vqs.py"
prop("C12", "Variational states evaluate, differentiate and store parameters consistently",
     "Evaluating a variational state returns for every configuration the network's value at the current parameters, "
     "independent of batch size and devices. Gradients are the derivatives of that value with respect to the entries "
     "of the parameter vector in its order, for real, complex-valued, holomorphic and non-holomorphic networks and "
     "two-network states; the gradient dictionary holds the same entries for real or holomorphic parameters. Setting, "
     "updating and reading back parameters round-trips exactly.",
     ["inputs", "configurations"], "all parameter values and configurations; batch sizes, devices in bounds",
     "tests compare gradients with finite differences for one parameter value",
     [VQ], [("NQS.__call__, gradients, gradients_dict, grad_dict_to_vec_map, set_parameters, update_parameters, get_parameters, get_sampler_net", VQ)],
     "solver verdict over arbitrary parameters of polynomial and table networks with several parameter arrays")
prop("C13", "Symmetrised states lie in the requested symmetry sector",
     "The symmetry orbits contain every requested lattice operation (translations, reflections, rotations, spin flip) "
     "exactly once with its phase factor. A symmetrised state transforms under each operation with the corresponding "
     "factor for every configuration and every underlying network (complex-valued, unless all factors are one), and direct samples of a symmetrised generator "
     "follow the orbit average of the generator's distribution, independently per sample, device and process.",
     ["inputs", "configurations", "schedules"], "all configurations, amplitude tables, random draws, in bounds",
     "tests check invariance for one configuration of one network",
     ["jVMC/util/symmetries.py", "jVMC/nets/sym_wrapper.py", SA],
     [("get_orbit_1D, get_orbit_2D_square", "jVMC/util/symmetries.py"), ("SymNet, avgFun_*", "jVMC/nets/sym_wrapper.py"),
      ("MCSampler._randomize_samples", SA)],
     "chains of 1-5 sites, squares up to 3x3 (4x4 thorough); arbitrary complex log-amplitudes of the plain network")
prop("C14", "Autoregressive networks are normalised and sample their own distribution",
     "For every value of the (real) parameters the one- and two-dimensional recurrent networks are normalised: the sum "
     "over all configurations of |psi|^(1/kappa) is one, for every cell type, depth, local dimension, real or complex "
     "output. Their direct samples follow exactly this distribution, independently per sample and per device, also at "
     "parameters given by the caller.",
     ["inputs", "schedules"], "all real parameter values and all outcomes of the random draws, in bounds",
     "tests compare histograms of one random run for initial parameters",
     ["jVMC/nets/rnn1d_general.py", "jVMC/nets/rnn2d_general.py", VQ],
     [("RNN1DGeneral.__call__, sample", "jVMC/nets/rnn1d_general.py"), ("RNN2DGeneral.__call__, sample", "jVMC/nets/rnn2d_general.py")],
     "exact sum and exact sampling probabilities; L=1-3 (chains) and 2x2, hidden size 1-2, depth 1-2, 2-4 levels; known "
     "finding for complex parameters")
TD, MS, ST = "jVMC/util/tdvp.py", "jVMC/util/minsr.py", "jVMC/util/stepper.py"
prop("C15", "TDVP returns the regularised solution of the variational equation of motion",
     "The right hand side returned by TDVP is the documented regularised pseudo-inverse of q[S] (cutoff lowered until "
     "the residual tolerance or the cutoff bound is met, soft signal-to-noise cutoff for Monte Carlo samples, diagonal "
     "shift) applied to q[-x F], with S and F the globally normalised sample covariances of gradients and local "
     "energies at the given parameters and time, however samples are spread over devices and processes. Energy mean and "
     "variance, residuals, error, SNR and spectrum reported belong to the first stage, and the network's parameters "
     "are left unchanged.",
     ["inputs", "configurations", "schedules"], "all gradients, local energies, weights, parameters; sizes, devices, processes in bounds",
     "tests follow one short time evolution of one network with all samples on one process",
     [TD, "jVMC/stats.py"],
     [("TDVP.solve, get_tdvp_equation, _get_snr, _transform_to_eigenbasis, __call__, getters", TD)],
     "solver verdict for arbitrary sample data with the eigendecomposition replaced by its contract; 1-2 parameters, "
     "2-4 samples, 1-2 devices, 1-2 processes")
prop("C16", "MinSR returns the minimum-norm update of the sampled equation",
     "The update returned by MinSR is minus the adjoint of the centred, weighted gradient matrix applied to the "
     "pseudo-inverse (at the configured tolerance) of its kernel matrix applied to the centred, weighted local "
     "energies of all samples of all devices and processes, identical on every process; the energy mean and variance "
     "it reports are those of the sample at the given parameters and time, and the network's parameters are left "
     "unchanged.",
     ["inputs", "configurations", "schedules"], "all gradients, local energies, weights, parameters; sizes, devices, processes in bounds",
     "tests compare with TDVP for one network, one process",
     [MS, "jVMC/stats.py"], [("MinSR.solve, __call__, set_pinv_tol", MS)],
     "solver verdict for arbitrary sample data with the pseudo-inverse as a contract; 1-3 parameters, 2-4 samples, "
     "2 devices, 2-3 processes")
prop("C17", "Integrators perform the steps of their scheme and keep the error tolerance",
     "For every right hand side, Euler performs y+dt*f, Heun the second-order Runge-Kutta step, with the stage number "
     "and all further arguments passed on and stage times t and t+dt. The adaptive Heun integrator returns a state of "
     "two half steps whose estimated error, in the configured norm, is within the tolerance, the step size actually "
     "used, never above the maximum step, and proposes the next step size from the estimated error within the "
     "documented bounds.",
     ["inputs", "histories"], "all right hand sides (arbitrary stage values), states, step sizes, tolerances",
     "tests integrate one linear ODE",
     [ST], [("Euler.step, Heun.step, AdaptiveHeun.step", ST)],
     "solver verdict over arbitrary stage values; 1-2 components, up to 2 rejected attempts")
UT, NT = "jVMC/util/util.py", "jVMC/nets/"
prop("C18", "Measurements and ground state search follow their documentation",
     "Measuring operators returns, for every single operator, list of operators and operator with arguments, the real "
     "part of the weighted mean of the local estimators of one common sample, their variance and the error of the mean "
     "for the total number of samples, independent of devices and processes; exact sampling gives the exact expectation "
     "value with zero error. The ground state search performs Euler steps of the given step size with the given "
     "equation, lowering its diagonal shift by 5 per cent per step, until the variance tolerance or the number of steps "
     "is reached, and leaves the last parameters in the state.",
     ["inputs", "configurations", "histories"], "all configurations, amplitudes, weights, couplings, updates, tolerances",
     "tests measure one operator in one state and run one search to convergence",
     [UT], [("measure, ground_state_search", UT)],
     "solver verdict over arbitrary samples and arbitrary updates; 1-2 spins, 2 devices, 2 processes, up to 3 steps")
prop("C19", "Built-in networks and network descriptions give the documented functions",
     "For every parameter value and configuration the built-in Boltzmann machines, feed-forward, convolutional and recurrent "
     "networks compute the function their documentation describes: every layer with its own activation function and "
     "biases where requested, periodic convolutions invariant under lattice translations, open ones padded with zeros, "
     "symmetric ones averaged over the orbit; recurrent networks run along the chain or the zigzag path of the square, every "
     "layer with a hidden state and parameters of its own, and give probability and phase of every outcome. A network "
     "built from a description has the described type, parameters, "
     "symmetries, sectors and batch size; the description is left unchanged.",
     ["inputs", "configurations"], "all parameter values and configurations, in bounds",
     "tests check translation invariance of one real network for one configuration",
     [NT + "rbm.py", NT + "ffn.py", NT + "cnn.py", NT + "activation_functions.py",
      NT + "rnn1d_general.py", NT + "rnn2d_general.py", UT],
     [("RBM, CpxRBM, CpxRBM_Nospinflip", NT + "rbm.py"), ("FFN", NT + "ffn.py"), ("CNN, CpxCNN, CpxCNNSym", NT + "cnn.py"),
      ("RNN1DGeneral, RNN2DGeneral, RNNCellStack, RNNCell", NT + "rnn1d_general.py"), ("init_net", UT)],
     "solver verdict over all real or complex parameters; 1-4 sites, squares 2x2 and 2x3 (recurrent: up to 3x3, 1-3 layers, "
     "2 configurations), filters 1-3, 1-2 channels, 1-2 layers")
PV = "jVMC/operator/povm.py"
prop("C20", "POVM operators and observables represent quantum states and dynamics exactly",
     "The measurement operators are complete and informationally complete for every rotation; the matrices derived "
     "from them (unitary, dissipative and imaginary-time generators, unitaries, observables) act on every probability "
     "vector exactly as the quantum operation acts on the represented state. A POVM operator built from terms is the sum "
     "of its terms with their strengths for every configuration, and its local estimator the corresponding ratio. "
     "Observables measured from samples are the weighted means, variances and errors of the total, connected "
     "correlators and distributions of all site pairs at the given distance, independent of devices and processes.",
     ["inputs", "configurations", "schedules"], "all states, matrices, strengths, angles, samples and weights, in bounds",
     "tests follow one dissipative evolution of two or four spins and compare with reference data",
     [PV], [("get_M, matrix_to_povm, get_dissipators, get_unitaries, get_observables, POVM", PV),
            ("POVMOperator.add, compile", PV), ("measure_povm, get_1_particle_distributions, POVM.evaluate_observable", PV)],
     "solver verdict for arbitrary states and matrices of one and two qubits, operators on 1-4 sites, lattices up to "
     "2x2, 1-2 devices, 1-2 processes")
OM = "jVMC/util/output_manager.py"
prop("C21", "The output manager keeps every record and restores checkpoints faithfully",
     "After any sequence of changes of the group, writes of observables, metadata and checkpoints, and appending or "
     "truncating re-opening, the data file holds in every group exactly the records written there, in order, with their "
     "times and at full precision; only process 0 (or the named one) writes. Reading a network checkpoint returns on "
     "every process the parameters and time of the last record, of the given index or of the record nearest to the "
     "given time in the current group, so that a restarted state has the same amplitudes. Timers accumulate total, "
     "newest and count.",
     ["histories", "inputs", "configurations"], "all operation sequences in bounds with arbitrary times and values",
     "no test exercises the output manager",
     [OM, "jVMC/mpi_wrapper.py"],
     [("OutputManager.set_group, write_*, get_network_checkpoint, start/stop/add_timing", OM),
      ("bcast_unknown_size", "jVMC/mpi_wrapper.py")],
     "solver verdict over all sequences of 3-4 operations with symbolic contents; the HDF5 library is replaced by an in-memory "
     "model of its documented behaviour, replays use real files")
prop("C22", "A new choice of devices takes effect in every later computation",
     "After any sequence of changes of the devices in use (one device or a list, repeated, reordered, growing or "
     "shrinking), global reductions and sample statistics of data distributed over the new devices, and states, operators and "
     "samplers created after the change, give the same results as if the devices had been chosen from the start.",
     ["histories", "configurations"], "all sequences of device choices in bounds, arbitrary data",
     "tests choose the devices once per process",
     ["jVMC/global_defs.py", "jVMC/mpi_wrapper.py", "jVMC/stats.py"],
     [("set_pmap_devices, pmap_devices_updated", "jVMC/global_defs.py"), ("jit_my_stuff", "jVMC/mpi_wrapper.py"),
      ("jit_my_stuff", "jVMC/stats.py")],
     "solver verdict over all sequences of 2 (thorough 3) choices of 1-3 devices with arbitrary data")
prop("N01", "Results agree with exact arithmetic to within floating point accuracy",
     "Every computed quantity agrees with its exact-arithmetic value up to the rounding expected of double precision, "
     "for all well-conditioned inputs, and never overflows where the result is representable.",
     ["inputs"], "all finite inputs", "tests compare at fixed points with loose tolerances",
     ["jVMC/vqs.py", "jVMC/sampler.py", "jVMC/util/tdvp.py"], [("all numerical kernels", "jVMC")], "")
NA.append(("N01", "the encoding is over the reals; a bit-precise encoding of XLA's float64 kernels with exp, log and "
           "linear algebra is out of reach of SMT solvers"))
prop("N02", "Markov chain sampling converges to the target distribution",
     "For every network and every start the samples of a sufficiently long Markov chain follow |psi|^mu.",
     ["histories", "schedules"], "chains of any length", "tests compare histograms of finite chains",
     [SA], [("MCSampler", SA)], "")
NA.append(("N02", "an asymptotic claim without bound; C09 and C11 decide the transition kernel, its symmetry and "
           "reachability, from which convergence follows mathematically"))
prop("N03", "Ground state search and time evolution converge to the exact physical solution",
     "With enough samples, small enough steps and an expressive network, the ground state search reaches the ground "
     "state energy and the time evolution the exact dynamics.",
     ["histories"], "all Hamiltonians and networks", "tests run one small example each",
     [UT, TD, ST], [("ground_state_search", UT), ("TDVP", TD), ("AdaptiveHeun", ST)], "")
NA.append(("N03", "a statement about limits over thousands of floating point steps without bound; C15-C18 decide each single step"))
