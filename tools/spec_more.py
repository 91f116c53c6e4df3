prop("C15", "The unique-samples state keeps distinct draws with exact multiplicities",
     "A Monte Carlo state of unique samples holds distinct configurations drawn by its sampler, stopping once the requested number of "
     "distinct configurations or the maximum number of batches is reached, with weights proportional to how often each was drawn and "
     "summing to one. Expectation values and gradients are those weighted averages over exactly these samples, for any chunk size, and the "
     "samples are redrawn after a reset or a change of parameters and kept otherwise.",
     ["histories", "inputs"], "all models, samplers, sample and batch sizes, histories of accesses, resets and parameter changes",
     "no test exercises the class; weights depend on the random history of draws",
     ["GPSKet/vqs/mc/mc_state/state_unique_samples.py", "GPSKet/vqs/mc/mc_state/expect.py"],
     [("collection of unique samples", "GPSKet/vqs/mc/mc_state"), ("weighted expectation and gradient", "GPSKet/vqs/mc/mc_state")],
     "model-based stateful property testing: recorded draws replayed through a reference count",
     "spaces of at most 64 states, histories of 2-5 operations")

prop("C16", "SR with RMSProp takes the documented natural-gradient step",
     "Each optimisation step of the stochastic-reconfiguration driver with RMSProp regularisation draws samples once, reports their "
     "energy and changes the parameters by learning rate times the solution of (S + shift diag(sqrt(v)+eps)) d = g, with S the "
     "covariance of the log-derivatives and g twice their covariance with the local energies over exactly these samples. v is the bias-corrected "
     "exponential moving average of g^2 over all steps so far, and the shift may follow a schedule in the step count.",
     ["histories", "inputs"], "all models, operators, decay, shift and learning-rate settings, numbers of steps",
     "no test runs the driver; the step depends on its whole history",
     ["GPSKet/driver/VMC_SRRMSProp.py", "GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py"],
     [("driver step and moving average", "GPSKet/driver/VMC_SRRMSProp.py")],
     "model-based stateful property testing: every step compared with an explicit linear system of the recorded samples",
     "up to 4 steps on enumerated spaces")

prop("C17", "Minimum-step reconfiguration equals stochastic reconfiguration",
     "Each step of the minimum-step stochastic-reconfiguration driver changes the parameters by the stochastic-reconfiguration "
     "update of the very samples and sample weights it used: with a diagonal shift the regularised solution, without one the minimum-norm "
     "solution. This holds for real, complex and holomorphic parametrisations, plain and unique-sample states and any chunk size.",
     ["histories", "inputs"], "all models, states, operators, shifts, chunk sizes, numbers of steps",
     "no test runs the driver; a wrong pairing of samples and energies still lowers the energy on average",
     ["GPSKet/driver/minSR.py"], [("sample-space linear system", "GPSKet/driver/minSR.py")],
     "property-based differential testing: sample-space solution against parameter-space linear algebra",
     "up to 3 steps; enumerated spaces")

prop("C18", "Quantum geometric tensors and solvers are the weighted covariances",
     "For every state the dense, unique-sample and RMSProp geometric tensors act, as matrix, as product and in solves, as the "
     "weighted covariance of the log-derivatives plus their diagonal regularisation, in real, complex and holomorphic mode, lazily "
     "or densely evaluated. The dense and RMSProp preconditioners return the corresponding natural gradient and update their moving average, and the "
     "pseudo-inverse solver returns the minimum-norm solution with the requested cutoff.",
     ["inputs", "configurations"], "all models, samples, weights, modes, shifts, decay rates and vectors",
     "no test covers these tensors",
     ["GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py", "GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py", "GPSKet/optimizer/qgt/qgt_onthefly_rmsprop.py", "GPSKet/optimizer/sr_dense.py", "GPSKet/optimizer/sr_rmsprop.py", "GPSKet/optimizer/solvers.py"],
     [("tensor construction", "GPSKet/optimizer/qgt"), ("preconditioners", "GPSKet/optimizer")],
     "property-based differential testing against explicit covariance matrices", "parameter counts up to about 60")

prop("C25", "Sample averages and stratified estimators are the weighted energies",
     "Energies of plain Monte Carlo states, with and without chunking, are the sample statistics of the local energies. A state "
     "with a deterministic set lists that set exactly once with the exact relative probabilities, fills the rest from the complement only, following "
     "the wavefunction restricted to it, and its weights and energies are those of the stratified estimator with the "
     "requested normalisation.",
     ["histories", "inputs"], "all models, deterministic sets, sampler settings, chunk sizes and normalisations",
     "no test covers stratified sampling or chunked on-the-fly expectation values",
     ["GPSKet/vqs/mc/mc_state/expect.py", "GPSKet/vqs/mc/mc_state/state_stratified_sampling.py"],
     [("expectation override", "GPSKet/vqs/mc/mc_state"), ("stratified sampling state", "GPSKet/vqs/mc/mc_state")],
     "property-based testing against enumerated spaces; chi-square law of the complement samples", "spaces of at most 64 states")

prop("C19", "State fitting descends the stated loss on the drawn mini-batch",
     "Each step of the autoregressive state-fitting driver draws a mini-batch of the dataset without replacement and with the stated "
     "amplitude-proportional probabilities, reports the loss of exactly that mini-batch and changes the parameters by one optimiser step "
     "along its gradient. Step counts, losses and parameters stay consistent under any history of steps, runs and resets.",
     ["histories", "inputs"], "all autoregressive models, datasets, mini-batch sizes, learning rates and histories of steps, runs and resets",
     "no test runs the driver; the mini-batch is random and a wrong gradient still lowers the loss on average",
     ["GPSKet/driver/autoreg_state_fitting.py", "GPSKet/driver/abstract_state_fitting.py"], [("loss, gradient and mini-batch selection", "GPSKet/driver/autoreg_state_fitting.py")],
     "model-based stateful property testing: the mini-batch is recovered from the loss and the step compared with its exact gradient; chi-square law of mini-batches",
     "datasets of at most 6 configurations, histories of 2-6 operations")

prop("C20", "An imaginary time step applies 1 - tau H to the wavefunction",
     "The state returned for an imaginary time step has, up to normalisation, the amplitudes of (1 - tau H) applied to the given state "
     "for every configuration, also when steps are nested or the model's parameters change, and for any chunk size. Energies "
     "and samples of the evolved Monte Carlo state are those of that wavefunction.",
     ["inputs", "histories"], "all models, on-the-fly Hamiltonians, time steps, nested steps, chunk sizes and configurations",
     "no test covers imaginary time evolution; signs and nesting need specific states",
     ["GPSKet/supervised/imag_time_step.py"], [("evolved amplitude function", "GPSKet/supervised/imag_time_step.py")],
     "property-based differential testing against exact matrices over the enumerated space; chi-square law of samples",
     "spaces of at most 64 states, up to 3 nested steps")

prop("C21", "Supervised learners predict the amplitudes of their current model",
     "Whatever history of predictions, reference-site changes, parameter assignments, fits and in-place changes of the arrays handed over "
     "precedes it, a prediction of a supervised learner equals the amplitude of the model given by its current parameters and bias on exactly "
     "the configurations passed. Symmetry images are summed over and reported errors are those of that prediction.",
     ["histories", "inputs"], "all learner classes, parameter shapes, configurations, symmetry images and histories of calls",
     "no test covers the learners; the site product is cached and updated incrementally, so errors need specific call histories",
     ["GPSKet/supervised/supervised_qgps.py"], [("incremental site products and kernel", "GPSKet/supervised/supervised_qgps.py")],
     "stateful model-based property testing: every prediction of a random history compared with a direct evaluation",
     "up to 5 sites, 3 support states, 4 local states, histories of 3-10 calls")

prop("C22", "Supervised fits return the regularised weighted least-squares solution",
     "A fitting step of the supervised learners sets the parameters at the chosen reference sites to the minimiser of the regularised, "
     "weighted squared error of its noise model, for real, complex and separately treated real and imaginary parameters, with bias, prior mean, cut-off of "
     "features, vanishing amplitudes and precomputed kernels, and leaves all other parameters and the caller's arrays unchanged. Repeated fits do not "
     "depend on what was fitted before, and the final weights belong to the final hyperparameters.",
     ["inputs", "histories"], "all learners, datasets, weightings, noise and prior settings, reference sites and sequences of fits",
     "no test covers the learners; a slightly wrong weight still fits the data well",
     ["GPSKet/supervised/supervised_qgps.py"], [("kernel and normal equations", "GPSKet/supervised/supervised_qgps.py"), ("hyperparameter loop", "GPSKet/supervised/supervised_qgps.py")],
     "property-based differential testing against explicitly solved normal equations of directly computed features",
     "up to 4 sites, 14 data, 3 support states")

prop("C23", "PixelCNN is a causal, normalised and gauge-constrained state",
     "For every lattice, kernel size, depth and parameters, the PixelCNN's conditional of a site depends on earlier sites only, and on every earlier site "
     "its receptive field contains; its conditional probabilities sum to one, the amplitude is their product and the amplitudes of the whole "
     "space are normalised. Gauge constraints remove exactly the broken local states, and the vertical and horizontal stack convolutions see exactly the sites above and to the left.",
     ["inputs", "configurations"], "all lattices, kernel sizes (odd and even), dilations, channels, depths, parameter types, gauge constraints and configurations",
     "no test builds the model; a causality leak leaves every conditional normalised",
     ["GPSKet/models/pixelcnn.py", "GPSKet/nn/causal_conv.py"], [("masked convolutions", "GPSKet/nn/causal_conv.py"), ("conditionals", "GPSKet/models/pixelcnn.py")],
     "property-based metamorphic testing: perturbed sites, enumerated normalisation, boolean receptive-field model",
     "lattices up to 5x5, enumeration up to 512 configurations, depth up to 3")

prop("C24", "Parameter initialisers follow their stated distribution",
     "The GPS initialiser draws real parameters normally distributed around one and complex parameters of unit modulus with normally distributed "
     "phases, with the given width; the orthogonal initialiser draws independent slices with orthonormal columns times the scale and rejects "
     "shapes that are not three-dimensional. Both, and the initialisation of every model, respect shape and type, depend only on the key and differ between keys. "
     "A model that is given an initialiser (or one per spin) starts from what it returns; a GPS-type model that is given none starts from the GPS initialiser of "
     "width 0.1 (0.01 for the autoregressive plaquette model) in its own parameter type.",
     ["inputs"], "all shapes, types, widths, scales, keys and models",
     "tests only use one initialisation and never look at its distribution",
     ["GPSKet/nn/initializers.py"], [("initialiser functions", "GPSKet/nn/initializers.py")],
     "property-based testing with Kolmogorov-Smirnov and correlation tests of large draws", "draws of about 4000 elements")

prop("C26", "The water dataset is the ground state in the requested basis",
     "Every request for the water dataset returns distinct configurations of the particle-number sector with the normalised amplitudes of the "
     "ground state of the requested method expressed in the requested orbital basis, and the requested number of largest ones if limited. "
     "Repeated requests to the same data folder return the same data, requests for other bases, methods or folders do not interfere, and a request "
     "after an interrupted one completes.",
     ["histories", "crash_points", "inputs"], "all bases, methods, numbers of configurations, sequences of requests and interruptions between writes",
     "no test covers the datasets; caching and interruptions need several requests",
     ["GPSKet/datasets/h2o.py"], [("computation, cache and selection", "GPSKet/datasets/h2o.py")],
     "stateful property testing with fault injection between file writes; eigenvector oracle from an independent Hamiltonian",
     "minimal orbital basis (441 determinants), up to 5 requests")

prop("C27", "Marginal likelihoods, their derivatives and hyperparameters are exact",
     "The log marginal likelihood a supervised learner reports is the log probability density of its data under prior and noise model, its "
     "derivatives by the precisions and the noise are exact, and integer weightings count as repeated data. Optimised noise and converged precisions are stationary points "
     "of it, and each iteration of the growing relevance vector machine makes the single change of a precision that raises it most.",
     ["inputs", "histories"], "all learners, datasets, weightings, noise and prior settings, real, complex and separately treated weights",
     "no test covers the learners; wrong evidences only shift the hyperparameters",
     ["GPSKet/supervised/supervised_qgps.py"], [("marginal likelihood and derivatives", "GPSKet/supervised/supervised_qgps.py"), ("growing relevance vector machine", "GPSKet/supervised/supervised_qgps.py")],
     "property-based differential testing against an explicit Gaussian log density, central differences and one-dimensional searches",
     "up to 14 data, 4 sites, 3 support states; well-conditioned covariances")

prop("C28", "Generalised linear model fits minimise the stated loss",
     "A fit step of the generalised linear model moves the parameters at the reference sites from their current values (or from the requested log-space or iteratively reweighted fit) by one Newton step, "
     "limited by the given line search, or to the minimum found by the given minimiser, of the weighted squared error of the amplitudes plus prior; "
     "other parameters, weights with diverging precision and the caller's arrays stay as they should. The reported evidence is the Laplace approximation "
     "there, its reported derivatives are those at fixed weights, and converged precisions and noise satisfy their stationarity conditions.",
     ["inputs", "histories"], "all datasets, weightings, noise and prior settings, minimisers and line searches, real and complex parameters",
     "no test covers the learners", ["GPSKet/supervised/supervised_qgps.py"], [("Newton step and hyperparameter loop", "GPSKet/supervised/supervised_qgps.py")],
     "property-based differential testing against explicitly evaluated loss, gradient and Hessian", "up to 16 data, 4 sites, 2 support states")

prop("C29", "Results do not depend on how samples and data are spread over MPI processes",
     "On several MPI processes the drivers, Monte Carlo states, geometric tensors and supervised learners return, on every process, what the same samples or data "
     "prescribe in a single process: energies, gradients, optimisation steps, unique-sample counts, stratified estimators, fits, evidences and hyperparameters "
     "are those of the union over the processes, equally or unequally divided. All processes reach the same parameters, no call hangs, and processes draw their own samples.",
     ["inputs", "histories", "schedules"], "all numbers of processes, divisions of samples and data, models, operators and settings of the properties concerned",
     "the tests run in a single process, where every collective operation is the identity",
     ["GPSKet/driver/VMC_SRRMSProp.py", "GPSKet/driver/minSR.py", "GPSKet/driver/autoreg_state_fitting.py", "GPSKet/driver/abstract_state_fitting.py",
      "GPSKet/vqs/mc/mc_state/state_unique_samples.py", "GPSKet/vqs/mc/mc_state/state_stratified_sampling.py",
      "GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py", "GPSKet/optimizer/qgt/qgt_onthefly_rmsprop.py", "GPSKet/supervised/supervised_qgps.py"],
     [("gathered steps", "GPSKet/driver/VMC_SRRMSProp.py"), ("chunked kernel matrix and scattered solution", "GPSKet/driver/minSR.py"),
      ("merged draws", "GPSKet/vqs/mc/mc_state/state_unique_samples.py"), ("summed normal equations", "GPSKet/supervised/supervised_qgps.py")],
     "property-based testing on groups of real MPI processes (mpirun) against the single-process references of the other properties",
     "two or three processes on one machine")

S = "scripts/ARGPS/argps/"
B = "scripts/cpd-backflow/cpd_backflow/"
prop("C30", "Experiment scripts build the Hamiltonian their configuration describes",
     "The system an experiment configuration names is built as described: Hubbard chains with open or periodic ends (periodic chains of 4k sites close with a sign change), "
     "Hubbard grids with PBC-PBC, PBC-APBC (sign change along the first direction) or PBC-OBC (open along the second) boundaries, Heisenberg and J1-J2 lattices "
     "with or without sign rule, and molecules in canonical or localised orbitals, with the configured or default (half-filled) electron numbers. Cached or partly lost integrals of earlier runs "
     "give the same Hamiltonian; pruning removes exactly the integrals below the threshold. Resolved configurations describe the requested chain or the closest-to-square sheet of atoms, keep a given seed "
     "and survive being saved and read.",
     ["inputs", "histories", "crash_points"], "all configurations of the supported systems, sequences of runs, interruptions between writes and lost files",
     "no test runs the experiment scripts; a wrong boundary or cached integral still optimises smoothly",
     [S + "systems.py", B + "systems.py", S + "configs/hydrogen.py", B + "configs/hsheet.py", S + "configs/common.py", B + "configs/common.py"],
     [("systems of ARGPS", S + "systems.py"), ("systems and integral cache of CPD backflow", B + "systems.py"), ("geometries", S + "configs/hydrogen.py")],
     "property-based differential testing of dense matrices against an independent second-quantised model; stateful generation with fault injection for the integral cache",
     "chains up to 6 sites, grids up to 12 sites with few electrons, hydrogen clusters up to 5 atoms in a minimal basis")

prop("C31", "Experiment scripts set up the ansatz their configuration asks for",
     "The ansatz of an experiment has the requested parameter type and symmetries (its amplitudes are invariant under every requested lattice operation and spin flip), is normalised if it is autoregressive, "
     "and has the local energies of the experiment's Hamiltonian; its sampler stays inside the Hilbert space. CPD backflow ansaetze without noise start from the Hartree-Fock determinant of the system with the "
     "requested kind of orbitals, noise has the requested width, and a requested exchange cutoff restricts each orbital's environment to the orbitals with the largest Hartree-Fock exchange.",
     ["inputs", "configurations"], "all models, symmetry options, systems, orbital kinds, bases, cutoffs and parameter types of the experiment scripts",
     "no test runs the experiment scripts; a wrong start or environment still optimises smoothly",
     [S + "models.py", S + "samplers.py", B + "models.py"], [("ansatz of ARGPS experiments", S + "models.py"), ("ansatz, mean field and environments of CPD backflow experiments", B + "models.py")],
     "property-based testing against enumerated amplitudes: metamorphic symmetry images, density matrices and orbital gradients of the initial state, independently computed exchange",
     "lattices up to 8 sites, hydrogen clusters up to 5 atoms in a minimal basis")

prop("C32", "Interrupted experiments resume where they stopped",
     "An optimisation of the experiment scripts that is interrupted at any point and started again in the same folder, with its configuration file or the saved one, continues from the last checkpoint: "
     "it executes exactly the remaining steps (and descent-finishing steps), each once per run, with the learning rate of its phase, from the parameters the checkpointed step left, and, given the same samples, with the update the "
     "uninterrupted run makes. Checkpoints exist at least at every configured multiple, at the end and after every finishing step. The metrics contain one row per executed step, the best parameters on disk are "
     "those after the step with the lowest energy and variance of all runs, evaluations use them, and an interrupted write destroys neither them nor the saved configuration. A finished run trains no further; a longer one continues.",
     ["histories", "crash_points", "inputs"], "all interruption points (between steps, within a step, within or between file writes), sequences of interrupted runs, optimisers, checkpoint intervals and phases",
     "no test runs the experiment scripts; a lost or repeated step or accumulator is invisible in a single run",
     [S + "vmc.py", B + "vmc.py", S + "utils.py", B + "utils.py"],
     [("training loop and checkpoints of ARGPS", S + "vmc.py"), ("training, finishing, evaluation and checkpoints of CPD backflow", B + "vmc.py"), ("files", B + "utils.py")],
     "stateful property testing of the real programs with injected interruptions and torn writes, against a model of the history",
     "up to 7 steps and 4 runs per history, small systems")

prop("C33", "Measured density matrices and spin correlations are those of the state",
     "The density matrices an optimised CPD backflow state is measured with are the averages, over all drawn samples, of the local estimators of the spin-free one- and two-body operators of the state with the best parameters "
     "(the two-body one up to the symmetry of the integrals). Spin-spin correlations computed from density matrices of a singlet, for sites or arbitrary symmetric projectors, are its expectation values of "
     "the products of the projected spins; radial correlations average over the four central atoms of the 6x6 sheet the summed correlations with all atoms at distance 0, 1, sqrt(2) and 2.",
     ["inputs"], "all singlets, projectors, correlation matrices, states, sample and chunk numbers",
     "no test measures density matrices or correlations", [B + "rdms.py", B + "corrfunc.py", "GPSKet/operator/hamiltonian/ab_initio.py"],
     [("sampling of density matrices", B + "rdms.py"), ("correlation formula", B + "corrfunc.py"), ("local density matrices", "GPSKet/operator/hamiltonian/ab_initio.py")],
     "property-based differential testing against exact expectation values and exact averages over the recorded samples of the real program",
     "up to 4 orbitals, 96 samples")

M = "scripts/GPS_for_ab_initio/"
prop("C34", "Molecular benchmark scripts treat their molecule and survive interruptions",
     "The molecular benchmark scripts (water, hydrogen chain, hydrogen cube, amplitudes of the ten-atom chain) set up the Hamiltonian of their molecule in an orthonormal basis of the requested kind, also from "
     "stored orbitals and integrals of an earlier run, and start from the Hartree-Fock reference times a GPS of the requested support dimension, with the local energies of that Hamiltonian. Each optimisation step is a plain gradient step "
     "and is recorded once with its total energy; the best parameters on disk are those of the lowest-variance step of all runs (for the cube: after its first 1000 steps). A run stops after the script's number of steps without improvement. "
     "Interrupted at any step, it continues from that step's parameters and stops where the uninterrupted run does; a finished one trains no further. The cube's density matrices are sample averages; the stored chain amplitudes are "
     "the normalised exact ground state in each basis.",
     ["inputs", "histories", "crash_points"], "all molecules, basis kinds, support dimensions, variance histories, interruption points and sequences of runs",
     "no test runs the benchmark scripts; a wrong basis, a lost best step or a miscounted stop still gives a plausible energy curve",
     [M + "H2O.py", M + "H50_1D.py", M + "H4x4x4.py", M + "H10_amplitudes.py"],
     [("basis, integrals and optimisation of water", M + "H2O.py"), ("split and local bases, chain", M + "H50_1D.py"), ("tracked phase and density matrices of the cube", M + "H4x4x4.py"), ("exact amplitudes", M + "H10_amplitudes.py")],
     "stateful property testing of the real programs with a scripted energy history and injected interruptions against a model of the history; differential testing of the set-up against independently transformed integrals",
     "molecules replaced by small hydrogen clusters or ions in minimal bases, a single process, no torn writes")
