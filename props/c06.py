"""C06: filters and smoothers converge to the exact posterior (end to end)."""
import numpy
from hypothesis import strategies as st
from vlib.core import check, expect
from vlib import strat, discrete

REPS = 30
# two-sided 1e-9 quantile of Student's t with 29 degrees of freedom is 8.8
TQ = 9.5
SLACK = 0.012

FILTERS = ("pf", "apf", "sir", "pfy")
SMOOTHERS = (("ancestor", 400, None), ("full", 150, None), ("rs", 300, None), ("rs", 300, {"R": 2}),
             ("rsas", 300, None), ("mcmc", 400, {"R": 40}), ("mhips", 400, {"R": 40}),
             ("mhips_reduced", 400, {"R": 40}), ("mhbp", 400, {"R": 30}))


def moderate():
    # bounded probability ratios keep the Monte Carlo error small
    return discrete.model_case(Ks=(2, 3), spread=5, memory=True)


@st.composite
def case_st(draw):
    return dict(model=draw(moderate()), data=draw(discrete.data_case(1, 3)), seed=draw(strat.seeds),
                res=draw(strat.oneof(0.0, 0.67, 1.0)))


def small(v):
    return None if v is None else v / 2.0


def prepare(case, filt):
    data = dict(case["data"])
    data["y"] = [small(v) for v in data["y"]]
    data["first"] = small(data["first"])
    if filt in ("sir", "pfy"):
        data["y"] = [0.5 if v is None else v for v in data["y"]]
    if filt == "pfy" and data["first"] is None:
        data["first"] = 0.25
    mc = dict(case["model"])
    if filt not in ("pf", "apf"):
        mc.pop("D", None)
    model = discrete.make_model(mc, "sir" if filt == "sir" else "markov")
    return model, model.hmm, data


def simulate(model, data, N, M, filt, smoother, opts, res):
    from pyparticleest.simulator import Simulator
    mf = data["first"] is not None
    y = ([data["first"]] if mf else []) + list(data["y"])
    sim = Simulator(model, list(data["u"]) + [None], y)
    sim.simulate(N, M, filter=filt, smoother=smoother, smoother_options=opts, res=res, meas_first=mf)
    return sim


def compare(est, exact, what):
    """est: (REPS, T, K) estimated marginals"""
    m = est.mean(axis=0)
    sd = est.std(axis=0, ddof=1) / numpy.sqrt(len(est))
    bad = numpy.abs(m - exact) > TQ * sd + SLACK
    expect(not bad.any(), "%s: marginals %s, exact %s", what, numpy.round(m, 4).tolist(),
           numpy.round(exact, 4).tolist())


def filter_check(case, rec, filt):
    model, h, data = prepare(case, filt)
    numpy.random.seed(case["seed"])
    T = len(data["y"]) + 1
    target = "y" if filt == "pfy" else "lik"
    exact = []
    for t in range(T):
        seqs, p = discrete.posterior(h, data, upto=t, target=target)
        exact.append(discrete.marginal(seqs, p, t, h.K))
    exact = numpy.array(exact)
    rec.nontrivial = exact.max() < 0.97
    est = numpy.zeros((REPS, T, h.K))
    for r in range(REPS):
        sim = simulate(model, data, 1500, 0, filt, None, None, case["res"])
        e, w = sim.get_filtered_estimates()
        for t in range(T):
            est[r, t] = numpy.bincount(e[t, :, 0].astype(int), weights=w[t], minlength=h.K)
        mean = sim.get_filtered_mean()
        expect(numpy.allclose(mean[:, 0], est[r] @ numpy.arange(h.K)), "filtered mean")
    compare(est, exact, "filter " + filt)


def smoother_check(case, rec, smoother, M, opts):
    model, h, data = prepare(case, "pf")
    numpy.random.seed(case["seed"])
    T = len(data["y"]) + 1
    seqs, p = discrete.posterior(h, data)
    exact = numpy.array([discrete.marginal(seqs, p, t, h.K) for t in range(T)])
    rec.nontrivial = exact.max() < 0.97
    reps = REPS
    est = numpy.zeros((reps, T, h.K))
    cell = seqs[numpy.argmax(p)]
    joint = numpy.zeros((reps, 1, 1))
    for r in range(reps):
        sim = simulate(model, data, 600, M, "pf", smoother, opts, case["res"])
        e = sim.get_smoothed_estimates()[:, :, 0].astype(int)
        for t in range(T):
            est[r, t] = numpy.bincount(e[t], minlength=h.K) / float(M)
        joint[r] = numpy.mean(numpy.all(e == cell[:, None], axis=0))
        expect(numpy.allclose(sim.get_smoothed_mean()[:, 0], e.mean(axis=1)), "smoothed mean")
    compare(est, exact, "smoother " + smoother)
    compare(joint, numpy.array([[p.max()]]), "probability of trajectory %s, smoother %s" % (cell.tolist(), smoother))


def _register():
    for f in FILTERS:
        def fn(case, rec, f=f):
            filter_check(case, rec, f)
        fn.__name__ = "filter_" + f
        check("C06", case_st, quick=90, thorough=900, rule="no state is almost certain")(fn)
    for name, M, opts in SMOOTHERS:
        def fn(case, rec, name=name, M=M, opts=opts):
            smoother_check(case, rec, name, M, opts)
        fn.__name__ = "smoother_" + name + ("_R%d" % opts["R"] if opts and name == "rs" else "")
        check("C06", case_st, quick=16, thorough=200, rule="no state is almost certain")(fn)


_register()
