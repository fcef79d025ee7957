"""C11: the estimate accessors report the stored particles and weights."""
import numpy
from hypothesis import strategies as st
from vlib.core import check, expect
from vlib import trace, strat
from vlib.stats import normlog


@st.composite
def case_st(draw):
    c = draw(strat.trace_case(("pf", "apf", "sir", "cpf"), min_steps=1, max_steps=6, extreme=True,
                              Ns=[1, 2, 3, 8, 20]))
    c["par"]["lik"] = "gauss"
    c["par"]["off"] = 0.0
    c["M"] = draw(strat.size(st.integers(1, 12), 20, 60))
    c["smoother"] = draw(strat.oneof("ancestor", "full", "mcmc"))
    c["more"] = draw(st.lists(strat.oneof("measure", "forward"), max_size=3))
    c["again"] = draw(strat.oneof((0, 0), (2, 3), (9, 1), (5, 30), (c["N"], c["M"])))
    c["split"] = [False] * len(c["steps"])
    return c


@check("C11", case_st, quick=700, thorough=10000, shards=2, rule="unequal weights at some step",
       need=("unequal", "smoothed", "measure", "forward"))
def accessors(case, rec):
    from pyparticleest.simulator import Simulator
    filt = case["filter"]
    model = trace.make_model(case["par"], trace.KIND.get(filt, "markov"))
    rng = numpy.random.RandomState(case["seed"])
    numpy.random.seed(rng.randint(2 ** 31 - 1))
    mf = case["first"] is not None
    arr = lambda a: None if a is None else numpy.asarray(a, dtype=float)
    y = ([arr(case["first"])] if mf else []) + [arr(s[1]) for s in case["steps"]]
    u = [arr(s[0]) for s in case["steps"]] + [None]
    opts = {"cond_traj": trace.cond_traj(rng, len(y) + 1)} if filt == "cpf" else None
    sm = case["smoother"] if filt != "sir" else "ancestor"
    sim = Simulator(model, u, y)
    sim.simulate(case["N"], case["M"], filter=filt, filter_options=opts, smoother=sm, meas_first=mf)
    N, M = case["N"], case["M"]
    est, w = filtered(sim, N, rec)
    pt = sim.pt
    T = len(pt)
    s = smoothed(sim, M)
    rec.label("smoothed")
    # what was handed out is a copy
    keep, keepw, keeps = pt[T - 1].pa.part.copy(), pt[T - 1].pa.w.copy(), sim.straj.traj[T - 1].pa.part.copy()
    est[...] = -1
    w[...] = -1
    s[...] = -1
    expect(numpy.array_equal(keep, pt[T - 1].pa.part) and numpy.array_equal(keepw, pt[T - 1].pa.w) and
           numpy.array_equal(keeps, sim.straj.traj[T - 1].pa.part), "the result arrays alias the stored estimates")
    e2, w2 = sim.get_filtered_estimates()
    expect(numpy.array_equal(e2[T - 1], keep), "second call")
    # further data given to the same filter: another measurement of the last time, another step
    more = [rng.uniform(-2, 2, 1) for _ in range(3)]
    if filt in ("pf", "sir"):
        for k in case["more"]:
            if k == "measure":
                pt.measure(more[0])
            else:
                pt.forward(u[0] if len(u) > 1 else None, more[1])
            filtered(sim, N, rec)
            rec.label(k)
    # another run of the same simulator
    N2, M2 = case["again"]
    if filt != "cpf" and N2:
        sim.simulate(N2, M2, filter=filt, smoother=sm, meas_first=mf)
        filtered(sim, N2, rec)
        smoothed(sim, M2)


def filtered(sim, N, rec):
    pt = sim.pt
    T = len(pt)
    est, w = sim.get_filtered_estimates()
    mean = sim.get_filtered_mean()
    expect(est.shape == (T, N, trace.WIDTH) and w.shape == (T, N) and mean.shape == (T, trace.WIDTH), "shapes")
    for t in range(T):
        expect(numpy.array_equal(est[t], pt[t].pa.part), "filtered particles at index %d", t)
        want = numpy.exp(normlog(pt[t].pa.w))
        expect(numpy.allclose(w[t], want, rtol=1e-9, atol=1e-14) and abs(w[t].sum() - 1) < 1e-9,
               "filtered weights at index %d are %s, normalised weights are %s", t, w[t].tolist(), want.tolist())
        wm = want @ pt[t].pa.part
        expect(numpy.allclose(mean[t], wm, rtol=1e-9, atol=1e-9),
               "filtered mean at index %d is %s, weighted mean is %s", t, mean[t].tolist(), wm.tolist())
        if numpy.ptp(want) > 1e-6:
            rec.nontrivial = True
            rec.label("unequal")
    return est, w


def smoothed(sim, M):
    T = len(sim.pt)
    s = sim.get_smoothed_estimates()
    m = sim.get_smoothed_mean()
    expect(s.shape == (T, M, trace.WIDTH) and m.shape == (T, trace.WIDTH), "shapes of the smoothed estimates")
    for t in range(T):
        expect(numpy.array_equal(s[t], sim.straj.traj[t].pa.part), "smoothed particles at index %d", t)
        expect(numpy.allclose(m[t], s[t].mean(axis=0), rtol=1e-9, atol=1e-9), "smoothed mean at index %d", t)
    return s


@st.composite
def par_case(draw):
    return dict(p=draw(st.lists(strat.num(), min_size=1, max_size=4)), kind=draw(strat.oneof("list", "array", "tuple")))


@check("C11", par_case, quick=100, thorough=1000, rule="every case")
def parameters_are_handed_on(case, rec):
    from pyparticleest.simulator import Simulator

    class Model(object):
        def set_params(self, params):
            self.params = params
    m = Model()
    sim = Simulator(m, None, [1.0])
    p = {"list": list, "array": numpy.array, "tuple": tuple}[case["kind"]](case["p"])
    sim.set_params(p)
    rec.nontrivial = True
    expect(numpy.array_equal(numpy.ravel(m.params), case["p"]) and numpy.array_equal(numpy.ravel(sim.params), case["p"]),
           "parameters %s became %s", case["p"], m.params)
    if case["kind"] == "array":
        p[:] = 99
        expect(numpy.array_equal(numpy.ravel(sim.params), case["p"]), "parameters alias the caller's array")
