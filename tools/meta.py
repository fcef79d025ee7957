#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (development
tool: the written files are what counts).  Only properties with a
props/cNN.py are written."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = "pyparticleest/"
P = []


def prop(id, title, statement, over, text, why, files, mech, oracle):
    P.append((id, title, statement, over, text, why, [PKG + f for f in files], mech, oracle))


prop("C01", "Importance weights of every particle filter",
     "At every time index the normalised log-weights stored by a particle filter are exactly the ones its "
     "algorithm prescribes (the weights carried over from the previous index, or none after resampling, times "
     "the measurement likelihood, for the auxiliary/optimal-proposal filters with their first-stage and proposal corrections). "
     "A time step with a missing measurement leaves the weights unchanged, the largest stored log-weight is 0, "
     "and nothing depends on the overall scale of the likelihood. "
     "The offset kept beside the stored weights restores the unnormalised weight.",
     ["inputs", "histories"],
     "every filter method, particle number, threshold, model parameters, measurement/missing pattern, first-index measurement and likelihood scale",
     "the tests run one filter on one trajectory and look at the estimate only; the weights must be right for every history of measurements, gaps and resampling",
     ["filter.py"],
     [("weight update of the filters", "filter.py: ParticleFilter.update, AuxiliaryParticleFilter, SIR, FFPropY, CPF*, CSIRAS"),
      ("ParticleApproximation weights", "filter.py: ParticleApproximation")],
     "weights recomputed independently from the recorded particles, ancestors and resampling decisions of a deterministic tracing model")
prop("C02", "Resampling is effective-sample-size triggered and unbiased",
     "A filter resamples exactly when the effective number of particles of its weights falls below the requested "
     "fraction of the particle count, and the reported number of resamplings agrees. Resampling gives each particle "
     "floor or ceil of N times its normalised weight copies, with the right expectation and draws of single particles follow the "
     "weights, and afterwards all weights are equal. Particles with zero weight are never chosen and reading the weights or "
     "picking the best particles never changes the approximation.",
     ["inputs", "histories"],
     "all weight vectors (extreme scales, ties, zeros, one particle), thresholds 0..2, filters and numbers of draws",
     "the number of copies and the trigger must be right for every weight vector and random draw, a test has one",
     ["filter.py"],
     [("resampling and sampling", "filter.py: sample, ParticleApproximation.resample/sample/calc_Neff/find_best_particles"),
      ("trigger", "filter.py: ParticleFilter.update")],
     "counting and binomial/multinomial p-value oracles against the weights; independent effective sample size")
prop("C03", "Particle lineages are genuine and history is immutable",
     "Every particle in the filter's history is its recorded ancestor propagated one step by the model with "
     "the input, time and process noise of that step, and the ancestor is recorded correctly through resampling. "
     "Once a time index has been stored, later filtering or smoothing never rewrites its particles, weights, "
     "ancestors, inputs or measurements. Models with history-dependent behaviour are handed exactly the lineage of each particle.",
     ["histories", "inputs"],
     "every filter, particle number and sequence of measured/unmeasured steps with resampling, followed by any smoother",
     "aliasing and off-by-one ancestor errors show only after particular resampling histories; the tests never look at ancestors",
     ["filter.py", "smoother.py"],
     [("history and ancestors", "filter.py: ParticleTrajectory.forward/extract_signals/spawn; TrajectoryStep"),
      ("ancestor extraction", "filter.py/smoother.py: extract_prev_ancestry, find_trajectories")],
     "tracing model whose particles carry unique ids, parent ids, input, time and noise; snapshots compared after every later call")
prop("C04", "Conditional particle filters keep their conditioning trajectory",
     "Every conditional filter retains the conditioning trajectory at each time index as one of its particles, and the "
     "ancestor-sampling variants draw the ancestor of the retained particle with probability proportional to weight times "
     "transition density (the whole future density for path-dependent models). A conditional filter followed by drawing one trajectory leaves the exact "
     "smoothing distribution invariant.",
     ["inputs", "histories"],
     "all conditional filters, particle numbers, conditioning trajectories, models and measurement patterns",
     "the law of the retained particle's ancestor is a distribution over histories, no fixed example decides it",
     ["filter.py"],
     [("conditional filters", "filter.py: CPF, CPFAS, CPFYAS, CSIRAS, ParticleFilter cond_traj handling")],
     "tracing model; multinomial p-values for ancestor indices; exactly enumerated posterior of a finite-state model for kernel invariance")
prop("C05", "Inputs, measurements and times stay paired with their step",
     "Over any sequence of predict and measure calls, the input given to a step drives the transition out of the "
     "previous index, the measurement given to it belongs to the index reached, the time advances by one per step, and each "
     "index is stored with its own input, measurement and time. The simulator pairs its input and measurement lists the same "
     "way, with and without a measurement at the first index and whatever sequence type or number type they are.",
     ["histories", "inputs"],
     "all sequences of forward/measure calls, input/measurement container types and missing measurements",
     "off-by-one pairing only matters with time-varying inputs and gaps, which the tests do not have",
     ["filter.py", "simulator.py"],
     [("call bookkeeping", "filter.py: ParticleTrajectory.forward/measure"),
      ("list handling", "simulator.py: Simulator.__init__/simulate")],
     "reference model of the call history; a recording model object")
prop("C06", "Filters and smoothers converge to the exact posterior",
     "For any model of the supported interfaces, simulating with any filter and smoother and increasing the number of "
     "particles converges to the true filtering and smoothing expectations, including with missing measurements, inputs and "
     "resampling. The estimates returned by the simulator are those estimates.",
     ["inputs", "configurations"],
     "random finite-state models, measurement sequences with gaps, and every filter x smoother pair",
     "the tests only check that runs finish or compare one seed's average error",
     ["simulator.py", "filter.py", "smoother.py"],
     [("end-to-end estimation", "simulator.py: Simulator.simulate; smoother.py: SmoothTrajectory")],
     "exact enumeration of the posterior of a finite-state hidden Markov model; Student-t bounds over independent repetitions")
prop("C07", "Backward simulation samples from the filter's backward law",
     "Smoothed trajectories made by backward simulation (plain, rejection sampling, adaptive rejection sampling, MCMC) draw "
     "each state among the particles of its time index with probability proportional to filter weight times the transition "
     "density into the already drawn future. This includes models whose density depends on the whole future trajectory, input, time or lineage.",
     ["inputs", "configurations"],
     "all filter histories, weights, backward densities (including zero densities), four methods and numbers of trajectories",
     "only the law of many draws shows an error, and early stopping/fallback paths run only for particular acceptance rates",
     ["smoother.py"],
     [("backward simulation", "smoother.py: SmoothTrajectory.perform_bsi, bsi_full, bsi_rs, bsi_rsas, bsi_mcmc")],
     "exact backward law enumerated from the stored filter history; multinomial p-values")
prop("C08", "Ancestor smoothing returns the filter's own lineages",
     "The ancestor smoother returns trajectories which are exactly the recorded lineages of final-time particles chosen "
     "according to the final weights, with their inputs, measurements and times.",
     ["histories", "inputs"],
     "all filters, histories with resampling, trajectory counts",
     "wrong lineages look plausible in every averaged test",
     ["smoother.py", "filter.py"],
     [("ancestor trajectories", "smoother.py: SmoothTrajectory.calculate_ancestors")],
     "unique particle ids traced back through recorded ancestors; multinomial counts of draws")
prop("C09", "MHIPS smoothing targets the smoothing distribution",
     "The Metropolis-Hastings improved particle smoothers (full and reduced model versions), given trajectories, make "
     "single-site moves that leave the exact smoothing distribution invariant and converge to it with more passes, and after a "
     "given number of passes the trajectories follow exactly the law of that many reverse-time sweeps.",
     ["inputs", "configurations"],
     "random finite-state models, measurement gaps also at the ends, numbers of passes",
     "acceptance ratios at the first, inner and last index with missing measurements are only visible in the law of the draws",
     ["smoother.py"],
     [("MHIPS", "smoother.py: perform_mhips, mhips_pass, mhips_pass_reduced, mc_step, perform_mhips_reduced")],
     "transition matrix of one sweep enumerated exactly for a finite-state model; multinomial p-values")
prop("C10", "MHBP smoothing samples each site from its exact conditional",
     "The Metropolis-Hastings backward proposer draws each state of a trajectory, with enough iterations, from the density "
     "proportional to (filter at the previous index) x (transition into it) x (its measurement likelihood) x (transition to the "
     "already drawn next state); at the ends the missing factors drop out.",
     ["inputs", "configurations"],
     "random finite-state models, weights, missing measurements and numbers of proposals",
     "a wrong acceptance ratio is only visible as a wrong law",
     ["smoother.py"],
     [("MHBP", "smoother.py: perform_mhbp, mc_step, bsi")],
     "exact site conditional of a finite-state model from the stored filter; multinomial p-values")
prop("C11", "Estimate accessors report exactly the stored estimates",
     "The accessors for filtered estimates, their means and smoothed estimates/means return the stored particles, "
     "normalised weights and weighted means of each time index in order, and parameters are handed to the model unchanged.",
     ["inputs", "histories"],
     "all filters, histories, weights with extreme scales and smoothers",
     "every caller plots these arrays, no test compares them with the stored approximations",
     ["simulator.py", "filter.py", "smoother.py"],
     [("accessors", "simulator.py: get_filtered_estimates/get_filtered_mean/get_smoothed_estimates/get_smoothed_mean, set_params")],
     "recomputation from the stored approximation objects")
prop("C12", "Kalman filter and smoother primitives are exact conditioning",
     "For every linear-Gaussian model, initial estimate, time-varying dynamics, affine input and measurement pattern, the "
     "time update, measurement update and RTS smoothing primitives give exactly the conditional mean and covariance of the joint "
     "Gaussian distribution, the returned measurement log-likelihood, and covariances stay symmetric positive semidefinite. Both the pure Python and the "
     "compiled implementation do so.",
     ["inputs", "histories", "configurations"],
     "dimensions 1-4, random dynamics, noise covariances, gaps, predict/measure orders, both implementations",
     "the existing tests check two 1- or 2-dimensional updates of the compiled version only",
     ["utils/kalman.py", "utils/ckalman.pyx"],
     [("KalmanFilter, KalmanSmoother", "utils/kalman.py and utils/ckalman.pyx: time_update, predict_full, measure_full, smooth, measurement_diff")],
     "conditioning of the joint Gaussian of all states and measurements, built independently")
prop("C13", "Gaussian log-density helpers equal the Gaussian log density",
     "The log-density helpers used by all models, for one or many points, scalar or vector, shared or per-particle covariance "
     "or Cholesky factor, return the multivariate Gaussian log density of the residual. Both the pure Python and the compiled implementation do so.",
     ["inputs", "configurations"],
     "dimensions 1-5, residual counts, condition numbers and both implementations",
     "the tests evaluate one point",
     ["utils/kalman.py", "utils/ckalman.pyx"],
     [("lognormpdf family", "utils/kalman.py, utils/ckalman.pyx: lognormpdf, lognormpdf_scalar, lognormpdf_cho, lognormpdf_vec")],
     "formula with slogdet and solve; scipy reference")

for extra in sorted(os.listdir(os.path.join(ROOT, "tools"))):
    if extra.startswith("meta_") and extra.endswith(".py"):
        exec(open(os.path.join(ROOT, "tools", extra)).read())


def main():
    props, checks = [], []
    for (id, title, statement, over, text, why, files, mech, oracle) in P:
        if not os.path.exists(os.path.join(ROOT, "props", id.lower() + ".py")):
            continue
        props.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                          why_tests_cant=why,
                          anchors=dict(files=files, mechanism=[dict(name=n, where=PKG + w) for n, w in mech])))
        checks.append(dict(property=id,
                           quick_cmd="/opt/venv/bin/python check.py " + id,
                           thorough_cmd="env VERIF_TIER=thorough /opt/venv/bin/python check.py " + id,
                           technique="property-based testing (Hypothesis generators, shrinking, replay): " + oracle,
                           level="exploration",
                           level_note="Generated-input search against an explicit oracle; absence of a violation is "
                                      "evidence over the generated cases only. Trusts numpy/scipy, the oracle code in "
                                      "/verif, and for distribution checks a p < 1e-9 rejection level."))
    assert all(len(p["title"]) <= 80 for p in props), [p["title"] for p in props if len(p["title"]) > 80]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in props:
            f.write(json.dumps(p) + "\n")
    json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=[],
                   notes="No hooks are needed. check.py --replay FILE re-runs a saved minimal case."),
              open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(props), "properties")


main()
