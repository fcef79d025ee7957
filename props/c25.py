"""C25: stochastic approximation EM (SAEM, PSAEM) weights and trajectories."""
import numpy
from hypothesis import strategies as st
from vlib.core import check, expect
from vlib import strat, emstub
from props.c24 import sched, at, pe, check_iteration_events

ALPHAS = (1.0, 1.0, 0.5, 0.3, 0.7, 0.05, 0.0, 1e-3, 0.999, 1e-7)


@st.composite
def saem_case(draw):
    n = draw(st.integers(1, 3))
    it = draw(st.integers(1, 6))
    return dict(n=n, N=draw(sched(2, 5)), M=draw(sched(1, 4)), iters=it,
                alpha=[1.0] + [draw(st.sampled_from(ALPHAS)) for _ in range(it - 1)],
                default=draw(st.integers(0, 3)) == 0,
                script=draw(st.lists(st.integers(-20, 20), min_size=6, max_size=6, unique=True)),
                still=draw(st.sampled_from((None, None, None, (0, 1), (1, 2), (1, 3), (2, 6), (0, 6)))),
                smoother=draw(st.sampled_from(("full", "ancestor", "mcmc"))),
                near=draw(st.sampled_from((0, 0, 1e-5))), first=draw(st.booleans()), seed=draw(strat.seeds))


@st.composite
def psaem_case(draw):
    c = draw(saem_case())
    c["N"] = draw(st.integers(2, 5))
    c["M"] = draw(strat.oneof(1, 1, 2, 3))
    c["filter"] = draw(st.sampled_from(("cpfas", "cpf", "CPFAS")))
    c["smoother"] = draw(st.sampled_from(("ancestor", "full")))
    c["rb"] = draw(st.integers(0, 2)) == 0
    c["eps"] = draw(st.sampled_from((0.0, 0.0, 0.02, 0.1, 0.3, 1.0)))
    c["perc"] = draw(st.sampled_from((0, 0, 10, 30, 50, 90)))
    c["max_traj"] = draw(st.sampled_from((0, 0, 1, 3, 5)))
    c["stop"] = draw(strat.oneof(None, None, 1, 3))
    c["cb"] = draw(st.booleans())
    return c


def setup(case):
    m = emstub.make(emstub.values(case))
    rng = numpy.random.RandomState(case["seed"])
    y = [float(v) for v in rng.normal(size=case["n"] + (1 if case["first"] else 0))]
    return m, y


def same(got, want, what, i):
    """got, want: (trajs (T, K, D), weights)"""
    expect(got[0].shape[1] == len(got[1]), "%s: iteration %d: %d trajectories with %d weights", what, i, got[0].shape[1], len(got[1]))
    expect(len(got[1]) == len(want[1]), "%s: iteration %d: %d trajectories kept with weights %s, expected %d with weights %s",
           what, i, len(got[1]), got[1].tolist(), len(want[1]), want[1].tolist())
    expect(numpy.allclose(got[1], want[1], rtol=1e-9, atol=1e-12), "%s: iteration %d: weights %s, expected %s",
           what, i, got[1].tolist(), want[1].tolist())
    expect(numpy.array_equal(got[0], want[0]), "%s: iteration %d: the trajectories handed to the maximisation are not the ones kept", what, i)
    expect(abs(numpy.sum(got[1]) - 1) < 1e-9, "%s: iteration %d: weights sum to %r", what, i, numpy.sum(got[1]))


@check("C25", saem_case, quick=400, thorough=8000,
       rule="several iterations with a step size strictly between 0 and 1",
       need=("schedM", "first", "zero", "one", "default"))
def saem(case, rec):
    """After iteration k trajectory i of iteration j has weight
    alpha_j * prod_{j<l<=k}(1 - alpha_l) / M_j; nothing else is kept."""
    m, y = setup(case)
    P = pe()
    est = P.ParamEstimationSAEM(m, None, y)
    sims, cbs = [], []
    kw = {} if case["default"] else {"alpha_gen": lambda k: case["alpha"][k]}
    n = case["iters"]
    res = est.maximize(numpy.array([0.5]), case["N"], case["M"], max_iter=n, meas_first=case["first"],
                       smoother=case["smoother"], smoother_options={"R": 2} if case["smoother"] == "mcmc" else None,
                       callback=lambda params, Q, cur_iter: cbs.append((float(numpy.ravel(params)[0]), cur_iter)),
                       callback_sim=lambda e: sims.append(e.get_smoothed_estimates().copy()), **kw)
    thetas = [0.5] + emstub.values(case)
    check_iteration_events(m, [(thetas[i], at(case["N"], i)) for i in range(n)], y, case["first"], "SAEM")
    alpha = [1.0] * n if case["default"] else case["alpha"]
    trajs, w = None, None
    for i in range(n):
        s = sims[i]
        expect(s.shape[1] == at(case["M"], i) and numpy.all(s[:, :, 1] == thetas[i]),
               "SAEM: iteration %d: %d trajectories simulated with parameters %s", i, s.shape[1], sorted(set(s[:, :, 1].ravel())))
        nw = numpy.ones(s.shape[1]) / s.shape[1]
        if trajs is None:
            trajs, w = s, nw
        else:
            trajs = numpy.concatenate((trajs, s), axis=1)
            w = numpy.concatenate(((1 - alpha[i]) * w, alpha[i] * nw))
        keep = w != 0
        trajs, w = trajs[:, keep], w[keep]
        same(m.got[i][1:], (trajs, w), "SAEM", i)
        expect(numpy.array_equal(m.got[i][0].get_smoothed_estimates(), s), "SAEM: iteration %d: current trajectories are not handed over", i)
    expect(cbs == [(thetas[i + 1], i) for i in range(n)], "SAEM callback got %s, expected %s", cbs, [(thetas[i + 1], i) for i in range(n)])
    expect(float(numpy.ravel(res[0])[0]) == thetas[n], "SAEM returned %s, last estimate %s", res[0], thetas[n])
    rec.label("schedM" if isinstance(case["M"], list) else "", "first" if case["first"] else "",
              "zero" if 0.0 in alpha[1:] else "", "one" if 1.0 in alpha[1:] else "", "default" if case["default"] else "")
    rec.nontrivial = n > 1 and any(0 < a < 1 for a in alpha[1:])


def discard(trajs, w, eps, perc):
    """drop the trajectories that may be dropped: weight at most eps and below
    the given percentile of the weights (and those without weight)"""
    q = numpy.percentile(w, perc)
    below = w[w < q]
    thr = min(eps, numpy.max(below) if len(below) else 0.0)
    keep = w > max(thr, 0.0)
    return trajs[:, keep], w[keep]


@check("C25", psaem_case, quick=500, thorough=10000,
       rule="several iterations with a step size strictly between 0 and 1",
       need=("rb", "discarded", "max_traj", "stopped", "first", "M>1", "zero"))
def psaem(case, rec):
    m, y = setup(case)
    P = pe()
    M, N = case["M"], case["N"]
    first = P.Simulator(m, None, y)
    m.set_params([0.25])
    first.simulate(N, 1, smoother="ancestor", meas_first=case["first"])
    m.events[:] = []
    opts = {"cond_traj": first.straj.traj}
    est = P.ParamEstimationPSAEM(m, None, y)
    sims, cbs = [], []
    n = case["iters"]
    kw = {} if case["default"] else {"alpha_gen": lambda k: case["alpha"][k]}

    def cb(params, Q, cur_iter):
        cbs.append((float(numpy.ravel(params)[0]), cur_iter))
        return True if case["stop"] is not None and cur_iter >= case["stop"] else None

    def cbs_(e):
        sims.append((e.get_smoothed_estimates().copy(), [s.pa.part.copy() for s in e.pt.traj],
                     [s.ancestors.copy() for s in e.pt.traj], e.pt.traj[-1].pa.w.copy()))
    if case["cb"]:
        kw["callback"] = cb
    res = est.maximize(numpy.array([0.5]), N, max_iter=n, meas_first=case["first"], filter=case["filter"],
                       filter_options=opts, smoother=case["smoother"], M=M, callback_sim=cbs_,
                       discard_eps=case["eps"], discard_percentile=case["perc"], max_traj=case["max_traj"],
                       raoblackwell=case["rb"], **kw)
    if case["cb"] and case["stop"] is not None:
        n = min(n, case["stop"])
    thetas = [0.5] + emstub.values(case)
    check_iteration_events(m, [(thetas[i], N) for i in range(n)], y, case["first"], "PSAEM")
    expect(len(sims) == n and len(m.got) == n, "PSAEM made %d iterations, expected %d", len(sims), n)
    alpha = [1.0] * 7 if case["default"] else case["alpha"]
    trajs = w = None
    cond = first.get_smoothed_estimates()[:, 0]
    dropped = cut = False
    for i in range(n):
        s, part, anc, fw = sims[i]
        T = len(part)
        # the conditioned particle is the trajectory kept from the iteration before
        for t in range(T):
            expect(numpy.array_equal(part[t][-1], cond[t]), "PSAEM: iteration %d: the conditional filter is not conditioned on the trajectory of the iteration before (index %d)", i, t)
        cond = s[:, 0]
        if case["rb"]:
            nt = numpy.empty((T, N, 3))
            idx = numpy.arange(N)
            for t in reversed(range(T)):
                nt[t] = part[t][idx]
                idx = anc[t][idx]
            nw = numpy.exp(fw - numpy.max(fw))
            nw = nw / numpy.sum(nw)
        else:
            nt, nw = s, numpy.ones(M) / M
        if trajs is None:
            trajs, w = nt, nw
        else:
            trajs = numpy.concatenate((trajs, nt), axis=1)
            w = numpy.concatenate(((1 - alpha[i]) * w, alpha[i] * nw))
        k = numpy.count_nonzero(w)
        trajs, w = discard(trajs, w, case["eps"], case["perc"])
        dropped = dropped or len(w) < k
        if 0 < case["max_traj"] < len(w):
            trajs, w = trajs[:, -case["max_traj"]:], w[-case["max_traj"]:]
            cut = True
        w = w / numpy.sum(w)
        same(m.got[i][1:], (trajs, w), "PSAEM", i)
        trajs, w = m.got[i][1:]
    if case["cb"]:
        expect(cbs == [(thetas[i + 1], i + 1) for i in range(n)], "PSAEM callback got %s", cbs)
    expect(float(numpy.ravel(res[0])[0]) == thetas[n], "PSAEM returned %s, last estimate %s", res[0], thetas[n])
    rec.label("rb" if case["rb"] else "", "discarded" if dropped else "", "max_traj" if cut else "",
              "stopped" if n < case["iters"] else "", "first" if case["first"] else "", "M>1" if M > 1 else "",
              "zero" if 0.0 in alpha[1:case["iters"]] else "", case["filter"])
    rec.nontrivial = n > 1 and any(0 < a < 1 for a in alpha[1:n])


@check("C25", psaem_case, quick=300, thorough=6000,
       rule="several iterations with a step size strictly between 0 and 1",
       need=("discarded", "first", "zero"))
def psaem2(case, rec):
    m, y = setup(case)
    P = pe()
    N = case["N"]
    first = P.Simulator(m, None, y)
    m.set_params([0.25])
    first.simulate(N, 1, smoother="ancestor", meas_first=case["first"])
    m.events[:] = []
    est = P.ParamEstimationPSAEM2(m, None, y)
    sims, cbs = [], []
    n = case["iters"]
    kw = {} if case["default"] else {"alpha_gen": lambda k: case["alpha"][k]}
    res = est.maximize(numpy.array([0.5]), N, max_iter=n, meas_first=case["first"], filter=case["filter"],
                       filter_options={"cond_traj": first.straj.traj}, smoother=case["smoother"],
                       callback=lambda params, Q, cur_iter: cbs.append((float(numpy.ravel(params)[0]), cur_iter)),
                       callback_sim=lambda e: sims.append((e.get_smoothed_estimates().copy(), [s.pa.part[-1].copy() for s in e.pt.traj])),
                       discard_eps=case["eps"], discard_percentile=case["perc"], **kw)
    thetas = [0.5] + emstub.values(case)
    check_iteration_events(m, [(thetas[i], N) for i in range(n)], y, case["first"], "PSAEM2")
    alpha = [1.0] * 7 if case["default"] else case["alpha"]
    trajs = w = None
    cond = first.get_smoothed_estimates()[:, 0]
    dropped = False
    for i in range(n):
        s, last = sims[i]
        for t in range(len(last)):
            expect(numpy.array_equal(last[t], cond[t]), "PSAEM2: iteration %d: not conditioned on the trajectory of the iteration before", i)
        cond = s[:, 0]
        if trajs is None:
            trajs, w = s, numpy.ones(1)
        else:
            trajs = numpy.concatenate((trajs, s), axis=1)
            w = numpy.concatenate(((1 - alpha[i]) * w, [alpha[i]]))
        k = numpy.count_nonzero(w)
        trajs, w = discard(trajs, w, case["eps"], case["perc"])
        dropped = dropped or len(w) < k
        w = w / numpy.sum(w)
        same(m.got[i][1:], (trajs, w), "PSAEM2", i)
        trajs, w = m.got[i][1:]
    expect(cbs == [(thetas[i + 1], i + 1) for i in range(n)], "PSAEM2 callback got %s", cbs)
    expect(float(numpy.ravel(res[0])[0]) == thetas[n], "PSAEM2 returned %s, last estimate %s", res[0], thetas[n])
    rec.label("discarded" if dropped else "", "first" if case["first"] else "",
              "zero" if 0.0 in alpha[1:case["iters"]] else "")
    rec.nontrivial = n > 1 and any(0 < a < 1 for a in alpha[1:n])


@check("C25", lambda: st.integers(0, 3000), quick=300, thorough=3000, rule="beyond the burn-in")
def default_step_sizes(it, rec):
    """1 during the burn-in of 100 iterations, then (it - 100)^-0.51"""
    P = pe()
    a = P.alpha_gen(it)
    want = 1.0 if it <= 100 else float(it - 100) ** (-0.51)
    expect(abs(a - want) < 1e-12, "alpha_gen(%d) = %r, expected %r", it, a, want)
    rec.nontrivial = it > 100
