"""C24: the EM iteration."""
import copy
import importlib
import numpy
from hypothesis import strategies as st
from vlib.core import check, expect
from vlib import strat, models, pmodels, emstub
from props.c12 import BOTH
from props import c18, c22


def pe():
    return importlib.import_module("pyparticleest.paramest.paramest")


@st.composite
def sched(draw, lo, hi):
    if draw(st.booleans()):
        return draw(st.integers(lo, hi))
    return draw(st.lists(st.integers(lo, hi), min_size=1, max_size=5))


def at(s, i):
    return s if not isinstance(s, list) else s[min(i, len(s) - 1)]


@st.composite
def loop_case(draw):
    n = draw(st.integers(1, 4))
    return dict(n=n, N=draw(sched(2, 6)), M=draw(sched(1, 4)), iters=draw(st.integers(1, 6)),
                script=draw(st.lists(st.integers(-20, 20), min_size=6, max_size=6, unique=True)),
                still=draw(st.sampled_from((None, None, None, (0, 1), (1, 2), (1, 3), (2, 6), (0, 6)))),
                near=draw(st.sampled_from((0, 0, 1e-5, 1e-9))), filter=draw(st.sampled_from(("pf", "PF", "apf"))), smoother=draw(st.sampled_from(("full", "ancestor", "mcmc"))),
                first=draw(st.booleans()), p0=draw(st.sampled_from(("array", "list", "tuple"))),
                cb=draw(st.booleans()), cbs=draw(st.booleans()), seed=draw(strat.seeds), opt=draw(st.booleans()))


def prepare(case, filt=None):
    m = emstub.make(emstub.values(case))
    rng = numpy.random.RandomState(case["seed"])
    y = [float(v) for v in rng.normal(size=case["n"] + (1 if case["first"] else 0))]
    start = {"array": numpy.array([0.5]), "list": [0.5], "tuple": (0.5,)}[case["p0"]]
    return m, y, start


def check_iteration_events(m, want, y, first, what):
    """want: list of (theta, N); events of iteration i: set, init, measurements, max"""
    ev = list(m.events)
    for i, (theta, N) in enumerate(want):
        expect(ev and ev[0] == ("set", theta), "%s: iteration %d starts with %s, expected set_params(%s)",
               what, i, ev[:1], theta)
        ev.pop(0)
        expect(ev and ev[0] == ("init", N, theta), "%s: iteration %d simulates (call, particles, parameters) %s, expected %d particles with parameters %s",
               what, i, ev[:1], N, theta)
        ev.pop(0)
        off = 0 if first else 1
        for k, v in enumerate(y):
            expect(ev and ev[0][0] == "y" and ev[0][1] == k + off and ev[0][2] == v,
                   "%s: iteration %d: measurement %d handed over as %s", what, i, k, ev[:1])
            while ev and ev[0] == ("y", k + off, v):
                ev.pop(0)
        expect(ev and ev[0] == ("max",), "%s: iteration %d: %s instead of the maximisation", what, i, ev[:1])
        ev.pop(0)
    expect(not ev, "%s: calls after the last iteration: %s", what, ev[:3])


@check("C24", loop_case, quick=300, thorough=6000,
       rule="several iterations and a schedule of particle or trajectory numbers",
       need=("schedN", "schedM", "first", "mcmc", "ancestor"))
def em_protocol(case, rec):
    """Every iteration sets the current parameters, filters and smooths all the
    data with them using the numbers scheduled for it, maximises over the
    resulting trajectories and hands on what the maximisation returned."""
    m, y, start = prepare(case)
    if case["filter"].lower() == "apf":
        m.eval_1st_stage_weights = lambda particles, u, y, t: numpy.zeros(len(particles))
    est = pe().ParamEstimation(m, None, y)
    cbs, sims = [], []
    opts = {"R": 2} if (case["opt"] and case["smoother"] == "mcmc") else None
    res = est.maximize(start, case["N"], case["M"], max_iter=case["iters"],
                       callback=(lambda params, Q, cur_iter: cbs.append((float(numpy.ravel(params)[0]), cur_iter))) if case["cb"] else None,
                       callback_sim=(lambda e: sims.append((e, len(m.got), e.get_smoothed_estimates().copy()))) if case["cbs"] else None,
                       meas_first=case["first"], filter=case["filter"], smoother=case["smoother"],
                       smoother_options=opts)
    n = case["iters"]
    thetas = [0.5] + emstub.values(case)
    check_iteration_events(m, [(thetas[i], at(case["N"], i)) for i in range(n)], y, case["first"], "ParamEstimation")
    for i, straj in enumerate(m.got):
        s = straj.get_smoothed_estimates()
        expect(s.shape == (len(y) + (0 if case["first"] else 1), at(case["M"], i), 3),
               "iteration %d: smoothed trajectories have shape %s, scheduled %s", i, s.shape, at(case["M"], i))
        expect(numpy.all(s[:, :, 1] == thetas[i]), "iteration %d maximises over trajectories of parameters %s, current ones %s",
               i, sorted(set(s[:, :, 1].ravel())), thetas[i])
        if case["cbs"]:
            expect(sims[i][0] is est and sims[i][1] == i, "callback_sim %d called at the wrong time", i)
            expect(numpy.array_equal(sims[i][2], s), "callback_sim %d does not see the trajectories which are maximised over", i)
    if case["cb"]:
        expect(cbs == [(thetas[i + 1], i) for i in range(n)], "callback got %s, expected %s", cbs, [(thetas[i + 1], i) for i in range(n)])
    if case["cbs"]:
        expect(len(sims) == n, "callback_sim called %d times in %d iterations", len(sims), n)
    expect(float(numpy.ravel(res[0])[0]) == thetas[n], "returned parameters %s, last estimate %s", res[0], thetas[n])
    rec.label("schedN" if isinstance(case["N"], list) else "", "schedM" if isinstance(case["M"], list) else "",
              "first" if case["first"] else "", case["smoother"], case["filter"])
    rec.nontrivial = n > 1 and (isinstance(case["N"], list) or isinstance(case["M"], list))


# -- the maximisation step ---------------------------------------------------
@st.composite
def bnds(draw, th):
    """bounds which contain the current parameters, or none"""
    if draw(st.integers(0, 2)) == 0:
        return None
    out = []
    for v in th:
        k = draw(st.integers(0, 3))
        lo = None if k == 0 else v - draw(st.sampled_from((0.0, 0.05, 0.4)))
        hi = None if k == 1 else v + draw(st.sampled_from((0.0, 0.05, 0.4)))
        out.append([lo, hi])
    return out


@st.composite
def max_ltv(draw):
    c = draw(c22.ltv_st())
    c["bounds"] = draw(bnds(c["pp"]["theta"]))
    c["ctor"] = draw(st.booleans())
    return c


@st.composite
def max_mix(draw):
    c = draw(c22.mix_st())
    c["bounds"] = draw(bnds(c["pp"]["theta"]))
    c["ctor"] = draw(st.booleans())
    return c


@st.composite
def max_nlg(draw):
    c = draw(c22.nlg_st())
    c["bounds"] = draw(bnds(c["pp"]["theta"]))
    c["ctor"] = draw(st.booleans())
    return c


LINKEYS = {"f", "h", "z0", "xi0", "x0", "g"}


def quadratic_max(oracle, p, bounds):
    """maximum of a concave quadratic (projected coordinate ascent)"""
    z = numpy.zeros(p)
    f0 = sum(oracle(z))
    E = numpy.eye(p)
    fp = [sum(oracle(E[j])) for j in range(p)]
    fm = [sum(oracle(-E[j])) for j in range(p)]
    g = numpy.array([(fp[j] - fm[j]) / 2 for j in range(p)])
    Hm = numpy.zeros((p, p))
    for j in range(p):
        Hm[j, j] = fp[j] + fm[j] - 2 * f0
        for k in range(j):
            Hm[j, k] = Hm[k, j] = sum(oracle(E[j] + E[k])) - fp[j] - fp[k] + f0
    x = numpy.zeros(p)
    lo = numpy.array([-1e3 if bounds is None or b[0] is None else b[0] for b in (bounds or [[None, None]] * p)])
    hi = numpy.array([1e3 if bounds is None or b[1] is None else b[1] for b in (bounds or [[None, None]] * p)])
    x = numpy.clip(x, lo, hi)
    for _ in range(400):
        for j in range(p):
            s = g[j] + Hm[j].dot(x) - Hm[j, j] * x[j]
            if Hm[j, j] < -1e-9:
                x[j] = min(max(-s / Hm[j, j], lo[j]), hi[j])
    return x, sum(oracle(x)), Hm


def setbounds(m, case):
    b = case["bounds"]
    if b is not None or not case["ctor"]:
        m.set_param_bounds(None if b is None else [tuple(q) for q in b])


def check_max(m, straj, oracle, case, rec, exact_grad):
    th0 = numpy.array(case["pp"]["theta"])
    p = case["pp"]["p"]
    setbounds(m, case)
    res = numpy.asarray(m.maximize(straj))
    expect(res.shape == (p,), "maximize returned shape %s for %d parameters", res.shape, p)
    b = case["bounds"]
    if b is not None:
        for j in range(p):
            expect((b[j][0] is None or res[j] >= b[j][0] - 1e-12) and (b[j][1] is None or res[j] <= b[j][1] + 1e-12),
                   "parameter %d is %r, bounds %s", j, res[j], b[j])
    before, after = sum(oracle(th0)), sum(oracle(res))
    tol = 1e-6 * (1 + abs(before))
    expect(after >= before - tol, "maximize went from %.9g at %s to %.9g at %s (depending on theta: %s)",
           before, th0.tolist(), after, res.tolist(), case["pp"]["par"])
    lin = set(case["pp"]["par"]) <= LINKEYS
    if lin:
        x, best, Hm = quadratic_max(oracle, p, b)
        if numpy.all(numpy.abs(x) < 30):
            slack = 1e-4 * (1 + abs(best)) + 0.02 * (best - before)
            expect(after >= best - slack, "maximize reached %.9g at %s, the maximum is %.9g at %s (from %.9g)",
                   after, res.tolist(), best, x.tolist(), before)
            rec.label("maximum")
    rec.label("bounds" if b is not None else "", "improved" if after > before + 1e-4 else "", "grad" if exact_grad else "numeric")
    rec.nontrivial = after > before + 1e-4


@check("C24", max_ltv, quick=250, thorough=5000, configs=BOTH,
       rule="the criterion improved", need=("bounds", "improved", "grad", "numeric", "maximum"))
def maximisation_linear(case, rec):
    tr = pmodels.LTVPar(case)
    m = pmodels.ltv_par_model(tr, grad=case["grad"])
    y = ([tr.y0] if case["first"] else []) + tr.y
    sim = models.lib().simulator.Simulator(m, u=tr.u, y=y)
    sim.simulate(1, 1, smoother="full", meas_first=case["first"])
    base = copy.copy(tr)
    check_max(m, sim.straj, lambda th: base.expectation(base.at(th)), case, rec, case["grad"])


@check("C24", max_mix, quick=80, thorough=2000, configs=BOTH,
       rule="the criterion improved")
def maximisation_mixed(case, rec):
    if case["kind"] == "marginalized" and case["smoother"] == "mhbp":
        case = dict(case, smoother="full")
    tr = pmodels.MixPar(case)
    m = pmodels.mix_par_model(tr, kind=case["kind"], grad=case["grad"])
    sim = c18.simulate(tr, m, case, case["N"], case["M"], case["smoother"],
                       {"R": 2} if case["smoother"] in ("mcmc", "mhips", "mhbp") else None)
    sest = sim.straj.get_smoothed_estimates()
    base = copy.copy(tr)
    xis = [[sest[t, j, :tr.lxi].copy() for t in range(case["n"] + 1)] for j in range(case["M"])]
    check_max(m, sim.straj, lambda th: numpy.mean([base.expectation(base.at(th), x) for x in xis], axis=0), case, rec, case["grad"])


@check("C24", max_nlg, quick=150, thorough=3000, configs=BOTH,
       rule="the criterion improved")
def maximisation_nonlinear(case, rec):
    tr = pmodels.NLGPar(case)
    m = pmodels.nlg_par_model(tr)
    rng = tr.rng
    n = case["n"]
    ys = [rng.uniform(-2, 2, tr.ly) if case["first"] else None] + [None if q else rng.uniform(-2, 2, tr.ly) for q in case["miss"]]
    us = [float(rng.uniform(-1, 1)) if case["u"] else None for _ in range(n)]
    sim = models.lib().simulator.Simulator(m, u=us, y=ys if case["first"] else ys[1:])
    sim.simulate(case["N"], case["M"], smoother="full", meas_first=case["first"])
    sest = sim.straj.get_smoothed_estimates()
    base = copy.copy(tr)
    check_max(m, sim.straj, lambda th: numpy.mean([base.expectation(base.at(th), sest[:, j], ys, us)
                                                   for j in range(case["M"])], axis=0), case, rec, False)


# -- EM for linear models never loses likelihood ----------------------------
@st.composite
def em_case(draw):
    c = draw(max_ltv())
    c["iters"] = draw(st.integers(1, 4))
    c["N"] = draw(strat.oneof(1, 1, 3))
    return c


@check("C24", em_case, quick=150, thorough=4000, configs=BOTH,
       rule="the likelihood of the data increased", need=("increased", "bounds"))
def em_linear_likelihood(case, rec):
    """EM on a linear Gaussian model: no iteration decreases the exact
    likelihood of the measurements."""
    tr = pmodels.LTVPar(case)
    m = pmodels.ltv_par_model(tr, grad=case["grad"])
    base = copy.copy(tr)
    setbounds(m, case)
    y = ([tr.y0] if case["first"] else []) + tr.y
    est = pe().ParamEstimation(m, tr.u, y)
    path = [numpy.array(case["pp"]["theta"])]
    res = est.maximize(path[0], case["N"], 1, max_iter=case["iters"], meas_first=case["first"],
                       callback=lambda params, Q, cur_iter: path.append(numpy.array(params)))
    expect(len(path) == case["iters"] + 1, "%d iterations asked for, %d took place", case["iters"], len(path) - 1)
    ll = [base.at(th).loglik() for th in path]
    for i in range(case["iters"]):
        expect(ll[i + 1] >= ll[i] - 1e-6 * (1 + abs(ll[i])),
               "EM iteration %d: log-likelihood went from %.9g at %s to %.9g at %s (depending on theta: %s)",
               i, ll[i], path[i].tolist(), ll[i + 1], path[i + 1].tolist(), case["pp"]["par"])
    expect(numpy.array_equal(numpy.ravel(res[0]), path[-1]), "returned %s, last estimate %s", res[0], path[-1])
    rec.label("increased" if ll[-1] > ll[0] + 1e-3 else "", "bounds" if case["bounds"] is not None else "")
    rec.nontrivial = ll[-1] > ll[0] + 1e-3
