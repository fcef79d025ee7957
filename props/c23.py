"""C23: analytic gradients of the parameter estimation criteria."""
import copy
import numpy
from hypothesis import strategies as st
from vlib.core import check, expect
from vlib import models, pmodels
from props.c12 import BOTH
from props import c18, c22

H = 2.0 ** -9


def numgrad(fun, th):
    """4th order central differences of a vector function"""
    out = []
    for j in range(len(th)):
        e = numpy.zeros(len(th))
        e[j] = H
        f = [numpy.array(fun(th + k * e)) for k in (-2, -1, 1, 2)]
        out.append((f[0] - 8 * f[1] + 8 * f[2] - f[3]) / (12 * H))
    return numpy.array(out)       # (p, 3)


def val_grads(m, straj):
    x0 = m.eval_logp_x0_val_grad(straj.traj[0].pa.part, straj.t[0])
    xn = m.eval_logp_xnext_val_grad_fulltraj(straj, straj.u, straj.t)
    y = m.eval_logp_y_val_grad_fulltraj(straj, straj.y, straj.t)
    return [(numpy.mean(v), numpy.ravel(g)) for v, g in (x0, xn, y)]


def compare(m, straj, oracle, case, rec):
    th = numpy.array(case["alt"][0])
    p = case["pp"]["p"]
    m.set_params(th)
    vals = c22.terms(m, straj)
    got = val_grads(m, straj)
    want = numgrad(oracle, th)
    for i in range(3):
        v, g = got[i]
        expect(numpy.size(v) == 1 and abs(float(v) - vals[i]) <= 1e-8 * (1 + abs(vals[i])),
               "%s: value with gradient %r, value without %r", c22.NAMES[i], v, vals[i])
        expect(len(g) == p, "%s: gradient has %d elements for %d parameters", c22.NAMES[i], len(g), p)
        for j in range(p):
            expect(abs(g[j] - want[j, i]) <= 2e-6 * (1 + abs(want[j, i]) + abs(vals[i])),
                   "%s: derivative for parameter %d is %.9g, exact %.9g (theta=%s, depending on theta: %s)",
                   c22.NAMES[i], j, g[j], want[j, i], th.tolist(), case["pp"]["par"])
    # other data than those of the run
    y2 = [None if v is None else numpy.asarray(v, dtype=float) * 0.5 + 0.25 for v in straj.y]
    y2 = [None if i == 1 and case["n"] > 2 else v for i, v in enumerate(y2)]
    u2 = [None if v is None else numpy.asarray(v, dtype=float) * -0.5 for v in straj.u]
    t2 = [v + len(case.get("rows") or [0]) for v in straj.t]
    for name, a in (("eval_logp_y", (y2, t2)), ("eval_logp_xnext", (u2, t2))):
        v = float(numpy.ravel(getattr(m, name + "_fulltraj")(straj, *a))[0])
        g = float(numpy.ravel(getattr(m, name + "_val_grad_fulltraj")(straj, *a)[0])[0])
        expect(abs(g - v) <= 1e-8 * (1 + abs(v)), "%s for other data: value with gradient %r, value without %r", name, g, v)
    rec.label("p%d" % p, *("par_" + k for k in case["pp"]["par"]))
    rec.nontrivial = case["n"] > 1 and not all(case["miss"]) and numpy.count_nonzero(numpy.abs(want) > 1e-6) > 0


@check("C23", c22.ltv_st, quick=400, thorough=8000, configs=BOTH,
       rule="several steps, a measurement and a gradient which is not zero",
       need=tuple("par_" + k for k in pmodels.LKEYS))
def linear_models(case, rec):
    tr = pmodels.LTVPar(case)
    m = pmodels.ltv_par_model(tr, grad=True, none_as_zero=case["none"])
    y = ([tr.y0] if case["first"] else []) + tr.y
    sim = models.lib().simulator.Simulator(m, u=tr.u, y=y)
    sim.simulate(1, 1, smoother="full", meas_first=case["first"])
    base = copy.copy(tr)
    compare(m, sim.straj, lambda th: base.expectation(base.at(th)), case, rec)


@check("C23", c22.mix_st, quick=300, thorough=6000, configs=BOTH, shards=2,
       rule="several steps, a measurement and a gradient which is not zero",
       need=tuple("par_" + k for k in pmodels.MIXP) + ("corr", "Adep"))
def mixed_models(case, rec):
    if case["kind"] == "marginalized" and case["smoother"] == "mhbp":
        case = dict(case, smoother="full")
    tr = pmodels.MixPar(case)
    m = pmodels.mix_par_model(tr, kind=case["kind"], grad=True)
    sim = c18.simulate(tr, m, case, case["N"], case["M"], case["smoother"],
                       {"R": 2} if case["smoother"] in ("mcmc", "mhips", "mhbp") else None)
    sest = sim.straj.get_smoothed_estimates()
    base = copy.copy(tr)
    xis = [[sest[t, j, :tr.lxi].copy() for t in range(case["n"] + 1)] for j in range(case["M"])]

    def oracle(th):
        return numpy.mean([base.expectation(base.at(th), x) for x in xis], axis=0)
    compare(m, sim.straj, oracle, case, rec)
    rec.label("corr" if case["corr"] else "", case["kind"],
              "Adep" if "A" in case["pp"]["par"] and (case["dep"]["Axi"] != "const" or case["dep"]["Az"] != "const") else "")


@check("C23", c22.laws_st, quick=300, thorough=6000, configs=BOTH,
       rule="a gradient which is not zero", need=tuple("par_" + k for k in pmodels.LKEYS))
def linear_model_terms(case, rec):
    """value and gradient of each term for several different laws of the
    states at once"""
    tr = pmodels.LTVPar(case)
    m = pmodels.ltv_par_model(tr, grad=True, none_as_zero=case["none"])
    J, cur, nxt, u, y, t = c22.laws(tr, case)
    base = copy.copy(tr)
    th = numpy.array(case["alt"][0])
    K = case["K"]
    scale = (1.0 / K, 1.0, 1.0)         # a mean for the initial term, sums for the others
    m.set_params(th)
    vals = [numpy.sum(v) for v in (m.eval_logp_x0(cur.copy(), t), m.eval_logp_xnext(cur.copy(), nxt.copy(), u, t),
                                   m.eval_logp_y(cur.copy(), y, t))]
    got = (m.eval_logp_x0_val_grad(cur.copy(), t), m.eval_logp_xnext_val_grad(cur.copy(), nxt.copy(), u, t),
           m.eval_logp_y_val_grad(cur.copy(), y, t))
    want = numgrad(lambda q: c22.laws_oracle(base, J, u, y, t, q).sum(axis=1), th)
    for i in range(3):
        v, g = got[i]
        expect(abs(float(v) - scale[i] * vals[i]) <= 1e-8 * (1 + abs(vals[i])), "%s: value with gradient %r, value without %r",
               c22.NAMES[i], v, scale[i] * vals[i])
        g = numpy.ravel(g)
        for j in range(len(th)):
            expect(abs(g[j] - scale[i] * want[j, i]) <= 2e-6 * (1 + abs(want[j, i]) + abs(vals[i])),
                   "%s: derivative for parameter %d is %.9g, exact %.9g (theta=%s, depending on theta: %s)",
                   c22.NAMES[i], j, g[j], scale[i] * want[j, i], th.tolist(), case["pp"]["par"])
    rec.label(*("par_" + k for k in case["pp"]["par"]))
    rec.nontrivial = numpy.count_nonzero(numpy.abs(want) > 1e-6) > 0


@st.composite
def plot_case(draw):
    c = draw(c22.ltv_st())
    c["first"] = False
    c["vals"] = [draw(st.integers(-8, 8)) / 8.0 for _ in range(draw(st.integers(1, 3)))]
    c["which"] = draw(st.integers(0, c["pp"]["p"] - 1))
    c["analytic"] = draw(st.booleans())
    return c


@check("C23", plot_case, quick=150, thorough=3000, rule="several parameter values and steps", need=("analytic", "values-only"))
def gradient_test_utility(case, rec):
    """The gradient test utility tabulates the three criteria and the
    derivatives for the chosen parameter at the values asked for."""
    from pyparticleest.paramest.gradienttest import GradientTest
    tr = pmodels.LTVPar(case)
    m = pmodels.ltv_par_model(tr, grad=True, none_as_zero=case["none"])
    g = GradientTest(m, u=tr.u, y=tr.y)
    th = numpy.array(case["pp"]["theta"])
    g.set_params(th)
    base = copy.copy(tr)
    k = case["which"]
    g.test(k, case["vals"], num=2, nums=1, analytic_grad=case["analytic"])
    for i, v in enumerate(case["vals"]):
        t2 = th.copy()
        t2[k] = v
        m.set_params(t2)
        want = c22.terms(m, g.straj)
        grad = val_grads(m, g.straj) if case["analytic"] else None
        for n, (name, plot) in enumerate((("x0", g.plot_x0), ("xn", g.plot_xn), ("y", g.plot_y))):
            expect(list(plot.params) == list(case["vals"]), "plot_%s.params is %s", name, plot.params)
            expect(abs(plot.vals[i] - want[n]) <= 1e-9 * (1 + abs(want[n])), "plot_%s.vals[%d] is %r, the criterion is %r", name, i, plot.vals[i], want[n])
            if case["analytic"]:
                expect(abs(plot.diff[i] - grad[n][1][k]) <= 1e-9 * (1 + abs(grad[n][1][k])),
                       "plot_%s.diff[%d] is %r, the derivative is %r", name, i, plot.diff[i], grad[n][1][k])
            else:
                expect(plot.diff is None, "plot_%s has derivatives although none were asked for", name)
    rec.label("analytic" if case["analytic"] else "values-only")
    rec.nontrivial = len(case["vals"]) > 1 and case["n"] > 1
