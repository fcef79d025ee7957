prop("C15", "Nonlinear Gaussian models: simulation, likelihood and transition density",
     "For every nonlinear Gaussian model the initial particles, the process noise, the propagated particles, the measurement log-likelihood and the "
     "transition log-density of every particle are those of the model's own f, Q, g and R (constant, time-varying or particle dependent), for flat, column or list shaped "
     "measurements, and for every future state in every particle/future pairing the smoothers use.",
     ["inputs", "configurations"],
     "state and measurement dimensions 1-3, constant and per-particle functions, particle numbers, measurement shapes, both helper implementations",
     "one scalar model is exercised by the tests; the branches for shared/per-particle covariances only show for other shapes",
     ["models/nlg.py"],
     [("nonlinear Gaussian base classes", "models/nlg.py: NonlinearGaussian.update/measure/logp_xnext/sample_process_noise, NonlinearGaussianInitialGaussian")],
     "Gaussian density formula per particle; whitened noise moments against the model's covariances")
prop("C16", "Linear time-varying models are filtered and smoothed exactly",
     "A filter and smoother over a purely linear-Gaussian model reproduce the exact filtering and smoothing means, covariances, cross covariances and the exact "
     "log-likelihood of the measurements, for time-varying dynamics, inputs, gaps, first-index measurements and any number of particles.",
     ["inputs", "histories"],
     "dimensions 1-3, dynamics per time index, measurement gaps, forms of z0, smoothers",
     "the tests use one constant two-state system",
     ["models/ltv.py", "utils/kalman.py", "utils/ckalman.pyx"],
     [("LTV", "models/ltv.py: LTV.update/measure/sample_smooth/post_smoothing")],
     "joint Gaussian conditioning of the whole trajectory")
prop("C17", "Rao-Blackwellised filtering of mixed linear/nonlinear models is exact",
     "For mixed linear/nonlinear Gaussian models every filter particle carries the exact conditional mean and covariance of the linear states given its own nonlinear trajectory and "
     "the measurements so far (including the information in the nonlinear transition and correlated noise), its weight increment is the exact predictive likelihood, new nonlinear states follow the exact predictive law, and "
     "logp_xnext is the exact log density of a future state.",
     ["inputs", "histories", "configurations"],
     "dimensions 1-2 of xi, z and y, each matrix constant, time-varying or particle dependent, correlated noise, missing C, gaps, both helper implementations",
     "the tests look at one filter estimate; the mixing of constant and particle-dependent matrices cannot be enumerated by examples",
     ["models/mlnlg.py", "models/rbpf.py", "utils/cmlnlg_compute.pyx"],
     [("MixedNLGaussianSampled filter", "models/mlnlg.py: update/measure/logp_xnext/sample_process_noise/cond_predict; models/rbpf.py")],
     "joint Gaussian of the linear states given each particle's nonlinear lineage; whitened noise moments")
prop("C18", "Rao-Blackwellised smoothing of mixed linear/nonlinear models is exact",
     "Whatever the smoother, each smoothed trajectory of a mixed linear/nonlinear model reports the exact mean, covariance and one-step cross covariance of the linear states given its whole nonlinear "
     "trajectory and all measurements; the backward draws of linear states follow their exact conditional law; and for models that are linear in disguise the smoothed moments agree with the exact smoother.",
     ["inputs", "histories", "schedules"],
     "the seven smoothers, 2-4 steps, dimensions 1-2, dependence pattern of every matrix, correlated noise, gaps",
     "smoothed covariances are not looked at by any test and the smoother is random",
     ["models/mlnlg.py", "models/rbpf.py", "smoother.py"],
     [("sample_smooth, post_smoothing", "models/mlnlg.py: MixedNLGaussianSampled.sample_smooth/post_smoothing; models/rbpf.py; smoother.py")],
     "joint Gaussian conditioning given each reported nonlinear trajectory; whitened draws; exact RTS moments with Student-t bounds")
prop("C19", "Smoothing with marginalised linear states is exact",
     "For the model class that marginalises the linear states during smoothing, the density of all future nonlinear states and measurements given a "
     "particle is the exact Gaussian one for every particle, time index and future trajectory, the backward statistics it carries are deterministic functions of that future, and its smoothed "
     "linear moments are the exact ones given the reported nonlinear trajectory; for models linear in disguise the smoothed law is the exact one.",
     ["inputs", "histories", "schedules"],
     "dimensions 1-2, dependence pattern of every matrix, correlated noise, gaps, five smoothers, future lengths up to 4",
     "the backward information recursion is exercised by no test with missing measurements, correlated noise or more than one linear state",
     ["models/mlnlg.py", "models/rbpf.py", "smoother.py"],
     [("marginalised smoothing", "models/mlnlg.py: MixedNLGaussianMarginalized.logp_xnext_full/sample_smooth/calc_prop1/calc_prop2; models/rbpf.py")],
     "log density ratios of the joint Gaussian of all future states and measurements; exact conditional moments; exact RTS moments with Student-t bounds")
prop("C20", "Hierarchical models: conditional filtering and smoothing are exact",
     "For hierarchical models every particle carries the exact conditional mean and covariance of the linear states given its nonlinear lineage, the weights are the exact predictive "
     "likelihoods, the backward kernels use the exact transition density of nonlinear and linear states, draws of linear states follow their exact conditional law and "
     "the smoothed moments are those given the reported nonlinear trajectory.",
     ["inputs", "histories", "schedules"],
     "dimensions 1-2, time-varying dynamics dependent on the nonlinear state, gaps, five smoothers, particle numbers and resampling thresholds",
     "no stable test covers hierarchical models",
     ["models/hierarchial.py", "models/rbpf.py", "smoother.py"],
     [("hierarchical models", "models/hierarchial.py: HierarchicalBase/HierarchicalRSBase; models/rbpf.py")],
     "joint Gaussian of the linear states given each nonlinear lineage; whitened draws; exact smoother for a jointly linear model")
prop("C21", "Rejection sampling bounds dominate the transition density",
     "The bound each model class reports for its transition density is never below the density of any next state from any of the particles it was asked about, "
     "and it is attained (tight up to rounding) for at least one of the particles, so that rejection sampling is unbiased and terminates.",
     ["inputs", "configurations"],
     "nonlinear, linear time-varying, mixed and hierarchical models with constant, time-varying and particle dependent covariances",
     "too low a bound biases the smoother silently",
     ["models/nlg.py", "models/mlnlg.py", "models/hierarchial.py"],
     [("logp_xnext_max", "models/*.py: logp_xnext_max; interfaces.py: FFBSiRS.logp_xnext_max_full")],
     "exact Gaussian density maximised over next states analytically")
prop("C22", "Parameter estimation maximises the expected complete-data log likelihood",
     "For the linear, mixed and nonlinear Gaussian model classes the three quantities whose sum the parameter estimation maximises (initial state, transitions, measurements) equal, for any "
     "parameter value and any set of (weighted or smoothed) trajectories, the conditional expectation of the complete-data log likelihood given the smoothed "
     "statistics of those trajectories, the current parameter entering each term through the model's own matrices.",
     ["inputs", "histories", "configurations"],
     "dimensions 1-3, which matrices depend on the parameters, number of trajectories, smoothers, measurement gaps, both helper implementations",
     "no stable test runs parameter estimation; the second-moment expectation terms only matter for non-degenerate smoothed covariances",
     ["models/ltv.py", "models/mlnlg.py", "models/nlg.py", "paramest/interfaces.py"],
     [("expected log likelihoods", "models/*.py: eval_logp_x0, eval_logp_xnext*, eval_logp_y*; paramest/interfaces.py: *_fulltraj")],
     "closed form E[log N(x; m, S)] from the reported smoothed moments, matrices re-derived from the case")
prop("C23", "Analytic gradients equal the derivatives of the expected log likelihoods",
     "For every model class offering analytic gradients the value returned along with the gradient is the expected log likelihood itself, and the gradient returned is its derivative with respect to "
     "every parameter, whichever of the matrices depend on the parameters and whether they are shared or particle dependent.",
     ["inputs", "configurations"],
     "which of the matrices carry gradients (including only means, only covariances), shared and per-particle matrices, 1-3 parameters, both helper implementations",
     "sign and symmetrisation mistakes in individual gradient terms only show for models with those terms",
     ["models/ltv.py", "models/mlnlg.py", "utils/mlnlg_compute.py", "utils/cmlnlg_compute.pyx"],
     [("analytic gradients", "models/ltv.py, models/mlnlg.py: eval_logp_*_val_grad, calc_l2_grad; utils/mlnlg_compute.py")],
     "Richardson-extrapolated central differences of an independent closed form")
prop("C24", "EM parameter estimation: protocol, maximisation, bounds, monotone likelihood",
     "Each EM iteration simulates filter and smoother with the current parameters and the scheduled number of particles and trajectories and maximises over the trajectories of that very iteration; the callback is told the new parameters and "
     "its verdict stops the loop; the maximisation never returns a worse point than it started from, respects the parameter bounds and stays "
     "in the model's parameter dimension; and for linear-Gaussian models the likelihood of the measurements never decreases along the iterations.",
     ["histories", "inputs", "configurations"],
     "particle and trajectory schedules, callbacks, start values, bounds, which terms have analytic gradients, meas_first, smoothers",
     "EM histories are long and random; monotonicity must hold for every start and every model",
     ["paramest/paramest.py", "paramest/interfaces.py", "simulator.py"],
     [("ParamEstimation.maximize", "paramest/paramest.py: ParamEstimation.maximize; paramest/interfaces.py: ParamEstBase*.maximize")],
     "event trace of a scripted stub model against a reference EM loop; independent closed form objective evaluated at the returned point; exact Kalman likelihood")
prop("C25", "Stochastic-approximation EM keeps the right trajectories with the right weights",
     "In SAEM and both PSAEM variants a trajectory simulated at iteration j and considered at iteration k has weight gamma_j * prod(1-gamma_l, j<l<=k) times its own share (uniform or "
     "Rao-Blackwellised by the final filter weights), only negligible or oldest trajectories are discarded as configured, weights sum to one, each conditional filter is conditioned on the trajectory "
     "of the preceding iteration, and the default step sizes are 1 during the burn-in and decay afterwards.",
     ["histories", "configurations"],
     "step size sequences including 0 and 1, trajectory numbers, discard thresholds and percentiles, maximum numbers of trajectories, filters, callbacks",
     "weights of old iterations are a product over the whole history",
     ["paramest/paramest.py"],
     [("SAEM/PSAEM", "paramest/paramest.py: ParamEstimationSAEM/ParamEstimationPSAEM/ParamEstimationPSAEM2.maximize, alpha_gen")],
     "reference recursion over the iterations observed through callbacks and a scripted model that records what it is asked to maximise")
prop("C14", "Numerical helper routines are exact; compiled and pure ones agree",
     "The helper routines behind the expected log likelihoods of mixed and linear models (prediction errors, second moments, their derivatives with respect to additive terms and "
     "to matrices, the derivative of log-determinant plus trace) compute exactly these quantities, add to the output where they accumulate and leave their inputs alone, in the pure Python and in the "
     "compiled implementation; and complete filter, smoother and criterion runs give the same results with either implementation.",
     ["inputs", "configurations"],
     "generic matrices of all sizes; runs over all model classes with identical random numbers in both configurations",
     "the tests only ever run the pure fallback; index mistakes only show for generic, asymmetric data",
     ["utils/kalman.py", "utils/ckalman.pyx", "utils/mlnlg_compute.py", "utils/cmlnlg_compute.pyx"],
     [("helpers", "utils/mlnlg_compute.py, utils/cmlnlg_compute.pyx, utils/kalman.py, utils/ckalman.pyx")],
     "closed forms and exact central differences of quadratics; differential testing of both configurations in two processes")
prop("C26", "Instrumenting a model changes nothing and counts exactly",
     "A model wrapped in the instrumenting class gives the same filter and smoother results as the model itself for the same random numbers, its counters equal the number of particles "
     "each kind of operation was carried out for, the printed statistics show these numbers, and operation counts add up counter by counter.",
     ["histories", "configurations"],
     "model classes, filters and smoothers the wrapper supports, particle and trajectory numbers, measurement gaps",
     "no test uses the instrumenter",
     ["utils/intrument.py"],
     [("Instrumenter, OpCount", "utils/intrument.py")],
     "differential run against the bare model; a recording proxy inside the wrapper counting what the model returned")
prop("C27", "Runs are repeatable, independent of one another and leave data alone",
     "With the same random numbers a run gives the same results whatever the model and simulator were used for before; inputs, measurements, smoother options and conditioning trajectories "
     "handed in are not changed; results of earlier runs, time steps and smoothing passes stay as they were, stepping by hand gives what the simulator gives, and smoothing never alters the filter's history.",
     ["histories", "inputs"],
     "sequences of runs with different data through one model or simulator, sequences of smoothing passes, all model classes, filters and smoothers",
     "state left behind in a model or arrays shared between results only show in sequences of runs",
     ["simulator.py", "filter.py", "smoother.py", "models/rbpf.py", "models/mlnlg.py"],
     [("whole runs", "simulator.py: Simulator.simulate; filter.py: ParticleTrajectory; smoother.py: SmoothTrajectory; models/*.py")],
     "comparison with a fresh model, deep copies of everything handed in, repeated passes")
prop("C28", "Only differences of log densities matter, however extreme",
     "Adding any constant per time index to the log densities a model reports (measurement, transition and its bound, proposals, first stage weights, initial state) changes neither weights, resampling, estimates nor "
     "smoothed trajectories, and however unequal the weights all estimates stay finite, weights form a probability vector, and smoothed states are particles with nonzero weight.",
     ["inputs", "histories"],
     "constants up to a million, likelihoods spanning more than the double range, all filters, smoothers and model classes",
     "overflow and underflow need unusual log densities no test has",
     ["filter.py", "smoother.py", "simulator.py"],
     [("weight handling", "filter.py: ParticleApproximation, measure_int; smoother.py: bsi_*; simulator.py: get_filtered_estimates")],
     "metamorphic relation between two runs with the same random numbers; invariants of the weights")
prop("C29", "The density of a sum of two uniform variables is exact",
     "For every pair of intervals, given by their end points in any order, the density helper for the sum of two independent uniform variables (first argument: end points of the first, second argument: "
     "end points of the second) equals the convolution of the two densities at every point, including outside the support and for equal widths.",
     ["inputs"],
     "interval positions and widths, order of end points, list/tuple/array arguments, points anywhere",
     "no test covers it",
     ["utils/pdf.py"],
     [("unifsum", "utils/pdf.py: unifsum")],
     "exact convolution by interval overlap; numerical integration")
prop("C30", "In every call models are told exactly the past, future and data that hold",
     "Every call the filters and smoothers make into a model carries what really holds: the particles and parents of the right time index, the past that is exactly the filtered history (or, in the "
     "Metropolis-Hastings smoothers, exactly the trajectories the running pass started from), the future that is exactly what has been drawn for the later indices, in the order of the trajectories, "
     "and the inputs, measurements and time stamps of exactly these indices; every state which is kept is passed to the conditional sampling once the future is known, and the finished trajectories are handed to the model's post-processing exactly once.",
     ["histories", "configurations"],
     "filters, smoothers, histories with gaps in inputs and measurements, pre-allocated or growing, resampling thresholds, trajectory numbers including one, numbers of passes",
     "tests use Markovian models which look at one entry of what they get; models with memory depend on every entry",
     ["interfaces.py", "filter.py", "smoother.py"],
     [("non-Markovian interface", "interfaces.py: ParticleFilteringNonMarkov, FFBSiNonMarkov, FFBSiRSNonMarkov, SampleProposer, AuxiliaryParticleFiltering"),
      ("callers", "filter.py: ParticleTrajectory, CPFAS, CPFYAS, PFY; smoother.py: SmoothTrajectory, mc_step, mhips, mhbp")],
     "a model with memory that writes every argument of every call down; each is held against the stored history and the data")
