"""C22: the quantities maximised by parameter estimation are the expected
complete-data log likelihoods."""
import copy
import numpy
from hypothesis import strategies as st
from vlib.core import check, expect
from vlib import strat, models, pmodels
from vlib.gauss import close
from props.c12 import BOTH
from props import c18

TOL = dict(rtol=2e-6, atol=1e-7)


def terms(m, straj):
    x0 = numpy.mean(m.eval_logp_x0(straj.traj[0].pa.part, straj.t[0]))
    xn = m.eval_logp_xnext_fulltraj(straj, straj.u, straj.t)
    y = m.eval_logp_y_fulltraj(straj, straj.y, straj.t)
    for k, v in (("eval_logp_xnext_fulltraj", xn), ("eval_logp_y_fulltraj", y)):
        expect(numpy.size(v) == 1, "%s returns %r, not a number", k, v)
    return numpy.array([float(x0), float(numpy.ravel(xn)[0]), float(numpy.ravel(y)[0])])


NAMES = ("log p(x_0)", "log p(x_{t+1}|x_t)", "log p(y_t|x_t)")


@st.composite
def thetas(draw, p, n):
    # (now and then far away)
    den = draw(strat.oneof(8.0, 8.0, 0.5))
    return [[draw(st.integers(-8, 8)) / den for _ in range(p)] for _ in range(n)]


@st.composite
def ltv_st(draw):
    c = draw(models.ltv_case(min_steps=1, max_steps=4, long=False))
    c["pp"] = draw(pmodels.ppart(pmodels.LKEYS))
    c["alt"] = draw(thetas(c["pp"]["p"], 2))
    c["grad"] = draw(st.booleans())
    c["none"] = draw(st.booleans())
    return c


@st.composite
def mix_st(draw):
    c = draw(models.mlnlg_case(max_steps=4, Ns=(2, 3, 5), certain=True, long=False))
    c["pp"] = draw(pmodels.ppart(pmodels.MIXP))
    if c["noC"] and c["pp"]["par"] == ["C"]:
        c["pp"]["par"] = ["C", "h"]
    c["alt"] = draw(thetas(c["pp"]["p"], 2))
    c["kind"] = draw(strat.oneof("sampled", "sampled", "marginalized"))
    c["smoother"] = draw(st.sampled_from(("full", "mcmc", "ancestor", "mhips", "mhbp")))
    c["M"] = draw(st.integers(1, 3))
    c["res"] = draw(strat.oneof(0.0, 0.7))
    c["grad"] = draw(st.booleans())
    return c


@st.composite
def nlg_st(draw):
    c = draw(models.nlg_case())
    n = draw(st.integers(1, 4))
    c.update(n=n, miss=[draw(st.integers(0, 4)) == 0 for _ in range(n)], first=draw(st.booleans()),
             M=draw(st.integers(1, 3)), smoother=draw(st.sampled_from(("full", "rs", "mcmc", "ancestor", "mhips", "mhbp"))))
    c["N"] = draw(st.integers(2, 5))
    c["pp"] = draw(pmodels.ppart(pmodels.NKEYS))
    c["alt"] = draw(thetas(c["pp"]["p"], 2))
    return c


def compare(m, straj, oracle, case, rec):
    """oracle(theta) -> the three expectations (with all constants)"""
    th0 = numpy.array(case["pp"]["theta"])
    got0, want0 = terms(m, straj), numpy.array(oracle(th0))
    for th in case["alt"]:
        m.set_params(numpy.array(th))
        got, want = terms(m, straj), numpy.array(oracle(th))
        for i in range(3):
            expect(abs((got[i] - got0[i]) - (want[i] - want0[i])) <= 1e-6 * (1 + abs(want[i]) + abs(want0[i])),
                   "%s changes by %.9g from theta=%s to %s, exact %.9g", NAMES[i], got[i] - got0[i],
                   th0.tolist(), th, want[i] - want0[i])
    m.set_params(th0)
    expect(numpy.allclose(terms(m, straj), got0, rtol=1e-12, atol=1e-12), "evaluating at other parameters changed the trajectories")
    rec.label("p%d" % case["pp"]["p"], *("par_" + k for k in case["pp"]["par"]))
    rec.label("missing" if any(case["miss"]) else "", "first" if case["first"] else "")
    rec.nontrivial = case["n"] > 1 and not all(case["miss"]) and any(list(t) != list(th0) for t in case["alt"])


@check("C22", ltv_st, quick=500, thorough=10000, configs=BOTH,
       rule="several steps, a measurement and parameters which differ from the current ones",
       need=tuple("par_" + k for k in pmodels.LKEYS))
def linear_models(case, rec):
    tr = pmodels.LTVPar(case)
    m = pmodels.ltv_par_model(tr, grad=case["grad"])
    y = ([tr.y0] if case["first"] else []) + tr.y
    sim = models.lib().simulator.Simulator(m, u=tr.u, y=y)
    sim.simulate(1, 1, smoother="full", meas_first=case["first"])
    base = copy.copy(tr)
    compare(m, sim.straj, lambda th: base.expectation(base.at(th)), case, rec)


@check("C22", mix_st, quick=400, thorough=8000, configs=BOTH, shards=2,
       rule="several steps, a measurement and parameters which differ from the current ones",
       need=tuple("par_" + k for k in pmodels.MIXP) + ("corr", "noC", "rb"))
def mixed_models(case, rec):
    if case["kind"] == "marginalized" and case["smoother"] == "mhbp":
        case = dict(case, smoother="full")
    tr = pmodels.MixPar(case)
    m = pmodels.mix_par_model(tr, kind=case["kind"], grad=case["grad"])
    sim = c18.simulate(tr, m, case, case["N"], case["M"], case["smoother"],
                       {"R": 2} if case["smoother"] in ("mcmc", "mhips", "mhbp") else None)
    sest = sim.straj.get_smoothed_estimates()
    base = copy.copy(tr)
    xis = [[sest[t, j, :tr.lxi].copy() for t in range(case["n"] + 1)] for j in range(case["M"])]

    def oracle(th):
        return numpy.mean([base.expectation(base.at(th), x) for x in xis], axis=0)
    compare(m, sim.straj, oracle, case, rec)
    rec.label("corr" if case["corr"] else "", "noC" if case["noC"] else "", "rb" if case["rb"] else "", case["kind"], case["smoother"])


@check("C22", nlg_st, quick=400, thorough=8000, configs=BOTH,
       rule="several steps, a measurement and parameters which differ from the current ones",
       need=tuple("par_" + k for k in pmodels.NKEYS))
def nonlinear_models(case, rec):
    tr = pmodels.NLGPar(case)
    m = pmodels.nlg_par_model(tr)
    rng = tr.rng
    n = case["n"]
    mk = lambda: rng.uniform(-2, 2, tr.ly) if case["yform"] != "col" else rng.uniform(-2, 2, (tr.ly, 1))
    ys = [mk() if case["first"] else None] + [None if q else mk() for q in case["miss"]]
    us = [float(rng.uniform(-1, 1)) if case["u"] else None for _ in range(n)]
    sim = models.lib().simulator.Simulator(m, u=us, y=ys if case["first"] else ys[1:])
    sim.simulate(case["N"], case["M"], smoother=case["smoother"], meas_first=case["first"],
                 smoother_options={"R": 2} if case["smoother"] in ("rs", "mcmc", "mhips", "mhbp") else None)
    sest = sim.straj.get_smoothed_estimates()
    base = copy.copy(tr)

    def oracle(th):
        return numpy.mean([base.expectation(base.at(th), sest[:, j], ys, us) for j in range(case["M"])], axis=0)
    compare(m, sim.straj, oracle, case, rec)
    rec.label(case["smoother"])


@st.composite
def laws_st(draw):
    c = dict(draw(ltv_st()), certain=False)
    c["K"] = draw(st.integers(2, 4))
    c["lseed"] = draw(strat.seeds)
    return c


def laws(tr, case):
    """K different joint laws of two successive states as particles of the
    smoothed layout"""
    rng = numpy.random.RandomState(case["lseed"])
    lz = tr.lz
    J = [(models.mat(rng, 2 * lz, 1, scale=2.0).ravel(), models.spd(rng, 2 * lz)) for _ in range(case["K"])]
    cur = numpy.array([numpy.hstack((m[:lz], S[:lz, :lz].ravel(), S[:lz, lz:].ravel())) for m, S in J])
    nxt = numpy.array([numpy.hstack((m[lz:], S[lz:, lz:].ravel(), numpy.zeros(lz * lz))) for m, S in J])
    u = float(rng.uniform(-1, 1)) if case["u"] else None
    y = models.mat(rng, *((tr.ly, 1) if case["ycol"] else (tr.ly,)), scale=2.0)
    t = int(rng.randint(0, 4))
    return J, cur, nxt, u, y[:tr.nrows(t)], t


def laws_oracle(tr, J, u, y, t, th):
    """(3, K) expected log densities under each law at th"""
    lz = tr.lz
    b = tr.at(th)
    D = numpy.hstack((-b.A(u, t), numpy.eye(lz)))
    return numpy.array([
        [pmodels.egauss((m[:lz], S[:lz, :lz]), numpy.eye(lz), -(b.z0b + b.inc("z0")), b.P0b + b.inc("P0")),
         pmodels.egauss((m, S), D, -b.f(u, t), b.Q(u, t)),
         pmodels.egauss((m[:lz], S[:lz, :lz]), -b.C(t), numpy.asarray(y).reshape((-1, 1)) - b.h(t), b.R(t))]
        for m, S in J]).T


@check("C22", laws_st, quick=300, thorough=6000, configs=BOTH,
       rule="several different laws and parameters which differ from the current ones",
       need=tuple("par_" + k for k in pmodels.LKEYS))
def linear_model_terms(case, rec):
    """each term of the criterion for several different laws of the states at
    once: one value per law, in their order"""
    tr = pmodels.LTVPar(case)
    m = pmodels.ltv_par_model(tr, grad=case["grad"])
    J, cur, nxt, u, y, t = laws(tr, case)
    base = copy.copy(tr)
    first = None
    for th in [case["pp"]["theta"]] + case["alt"]:
        m.set_params(numpy.array(th))
        got = [numpy.asarray(v, dtype=float).ravel() for v in
               (m.eval_logp_x0(cur.copy(), t), m.eval_logp_xnext(cur.copy(), nxt.copy(), u, t), m.eval_logp_y(cur.copy(), y, t))]
        want = laws_oracle(base, J, u, y, t, th)
        for i in range(3):
            expect(got[i].shape == want[i].shape, "%s has shape %s for %d particles", NAMES[i], got[i].shape, case["K"])
        got = numpy.array(got)
        first = got - want if first is None else first
        # equal up to a constant of the model
        err = numpy.abs(got - want - first[:, :1])
        expect(numpy.all(err <= 1e-7 * (1 + numpy.abs(want))), "terms %s at theta=%s, exact up to constants %s",
               got.tolist(), th, want.tolist())
    rec.label(*("par_" + k for k in case["pp"]["par"]))
    rec.nontrivial = any(list(a) != list(case["pp"]["theta"]) for a in case["alt"])
