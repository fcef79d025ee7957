"""C15: nonlinear Gaussian models: densities, propagation, sampling."""
import numpy
import scipy.stats
from hypothesis import strategies as st
from vlib.core import check, expect
from vlib import strat, models
from vlib.gauss import logpdf, close
from props.c12 import BOTH


def yval(c, v):
    return {"flat": v, "col": v.reshape((-1, 1)), "list": v.tolist()}[c["yform"]]


def setup(case):
    tr = models.NLGTruth(case)
    m = models.nlg_model(tr)
    x = models.some_copies(tr.rng, models.mat(tr.rng, case["N"], tr.lx, scale=2.0) * tr.v)
    u = float(tr.rng.uniform(-1, 1)) if case["u"] else None
    return tr, m, x, u, case["t"]


@check("C15", models.nlg_case, quick=500, thorough=10000, configs=BOTH, rule="particle dependent matrices or dimension of at least two")
def densities(case, rec):
    """measure, logp_xnext, their peak, x0 density, first stage weights, the
    proposal density and update are what the model equations say."""
    tr, m, x, u, t = setup(case)
    N = case["N"]
    rec.nontrivial = "part" in case["dep"].values() or tr.lx > 1 or tr.ly > 1
    rec.label(*["%s-%s" % kv for kv in case["dep"].items()])
    rec.label("lx%d" % tr.lx, "ly%d" % tr.ly, case["how"])
    y = models.mat(tr.rng, tr.ly, scale=2.0) * tr.w
    xc = x.copy()

    def pair(name, got, want):
        expect(numpy.size(got) == N and close(numpy.ravel(got), want, 1e-8, 1e-9),
               "%s gives %s, the model says %s", name, numpy.ravel(got).tolist(), numpy.ravel(want).tolist())
        expect(numpy.array_equal(x, xc), "%s modified the particles", name)
    lik = lambda xx, tt: [logpdf(y - tr.g(a, tt), tr.R(a, tt)) for a in xx]
    pair("measure", m.measure(x, yval(case, y), t), lik(x, t))
    # one next state for every particle / one each
    xn = models.mat(tr.rng, N, tr.lx, scale=2.0) * tr.v
    tran = lambda a, b: logpdf(b - tr.f(a, u, t), tr.Q(a, u, t))
    pair("logp_xnext", m.logp_xnext(x, xn, u, t), [tran(x[i], xn[i]) for i in range(N)])
    peak = [logpdf(numpy.zeros(tr.lx), tr.Q(x[i], u, t)) for i in range(N)]
    mx = numpy.max(m.logp_xnext_max(x, u, t))
    expect(abs(mx - max(peak)) <= 1e-8 * (1 + abs(max(peak))), "logp_xnext_max %r, highest density %r", mx, max(peak))
    pair("eval_logp_x0", m.eval_logp_x0(x, t), [logpdf(a - tr.x0, tr.P0) for a in x])
    xf = numpy.array([tr.f(a, u, t) for a in x])
    pair("eval_1st_stage_weights", m.eval_1st_stage_weights(x, u, yval(case, y), t), lik(xf, t + 1))
    noise = models.mat(tr.rng, N, tr.lx) * tr.v
    p = x.copy()
    q = m.update(p, u, t, noise)
    expect(close(p / tr.v, (xf + noise) / tr.v) and close(q / tr.v, (xf + noise) / tr.v), "update gives %s, want %s", p.tolist(), (xf + noise).tolist())


def whitened_ok(W, what):
    """W: (n, d) claimed standard normal"""
    n, d = W.shape
    for i in range(d):
        pv = scipy.stats.kstest(W[:, i], "norm").pvalue
        expect(pv > 1e-9, "%s: whitened coordinate %d is not standard normal (p=%.2g, mean %.3f, std %.3f)",
               what, i, pv, W[:, i].mean(), W[:, i].std())
        z = W[:, i].mean() * numpy.sqrt(n)
        expect(abs(z) < 6.5, "%s: whitened coordinate %d has mean %.3f (%.1f standard errors)", what, i, W[:, i].mean(), z)
        s = (W[:, i] ** 2).sum()
        pv = 2 * min(scipy.stats.chi2.cdf(s, n), scipy.stats.chi2.sf(s, n))
        expect(pv > 1e-10, "%s: whitened coordinate %d has variance %.3f (p=%.2g)", what, i, s / n, pv)
        for j in range(i):
            # a sum of n products of independent standard normal variables
            z = W[:, i].dot(W[:, j]) / numpy.sqrt(n)
            expect(abs(z) < 6.7, "%s: whitened coordinates %d, %d are correlated (%.3f, %.1f standard errors)", what, i, j, z / numpy.sqrt(n), z)


def whiten(x, mean, P):
    L = numpy.linalg.cholesky(P)
    return numpy.linalg.solve(L, (x - mean).T).T


@st.composite
def law_case(draw):
    c = draw(models.nlg_case())
    c["lx"] = draw(strat.oneof(1, 2, 2, 3))
    return c


@check("C15", law_case, quick=60, thorough=800, shards=2, rule="more than one state")
def sampling(case, rec):
    """Process noise, initial particles and smoothing proposals follow the
    Gaussian laws of the model; without Px0 the initial state is exact."""
    case = dict(case, N=1500)
    tr, m, x, u, t = setup(case)
    N = case["N"]
    rec.nontrivial = tr.lx > 1
    numpy.random.seed(case["seed"] % (2 ** 31))
    xc = x.copy()
    v = m.sample_process_noise(x, u, t)
    expect(v.shape == (N, tr.lx), "noise of shape %s", v.shape)
    expect(numpy.array_equal(x, xc), "sampling noise modified the particles")
    W = numpy.array([numpy.linalg.solve(numpy.linalg.cholesky(tr.Q(x[i], u, t)), v[i]) for i in range(N)])
    whitened_ok(W, "process noise")
    p = m.create_initial_estimate(N)
    expect(p.shape == (N, tr.lx), "initial particles of shape %s", p.shape)
    whitened_ok(whiten(p, tr.x0, tr.P0), "initial particles")
    m0 = models.nlg_model(tr, Px0=False)
    p0 = m0.create_initial_estimate(3)
    expect(close(p0, numpy.tile(tr.x0, (3, 1))), "without Px0 the initial particles are %s, x0 %s", p0.tolist(), tr.x0.tolist())
    lp = m0.eval_logp_x0(numpy.vstack((p0[:1], p0[:1] + 1.0)), 0)
    expect(lp[0] == 0.0 and lp[1] == -numpy.inf, "density of a certain initial state %s", lp.tolist())


@st.composite
def prop_case(draw):
    c = draw(models.nlg_case())
    c["n"] = draw(st.integers(1, 3))
    c["cur"] = draw(st.integers(0, c["n"]))
    return c


@check("C15", prop_case, quick=60, thorough=800, shards=2, rule="not at the first index")
def proposals(case, rec):
    """The default smoothing proposal draws from the prior given the ancestor,
    with the input and time of the step before, and its density is that one."""
    tr = models.NLGTruth(case)
    m = models.nlg_model(tr)
    N, M = 5, 1500
    n, cur = case["n"], case["cur"]
    numpy.random.seed(case["seed"])
    pt = models.lib().filter.ParticleTrajectory(m, N, 0.5)
    us = [float(tr.rng.uniform(-2, 2)) for _ in range(n)] + [None]
    for k in range(n):
        pt.forward(us[k], yval(case, models.mat(tr.rng, tr.ly) * tr.w))
    T = n + 1
    ut, yt, tt = us, [None] * T, list(range(T))
    find = numpy.arange(M)
    if cur == 0:
        # (an initial density which depends on the time stamp)
        own = m.eval_logp_x0
        m.eval_logp_x0 = lambda particles, t: own(particles, t) + 0.25 * t
        tt = [q + 3 for q in tt]
        args = (None, None, None, find, yt, ut, tt, 0)
        p = m.propose_smooth(*args)
        whitened_ok(whiten(p, tr.x0, tr.P0), "first proposal")
        lp = m.logp_proposal(p[:7], *(None, None, None, find[:7], yt, ut, tt, 0))
        want = [logpdf(a - tr.x0, tr.P0) + 0.25 * tt[0] for a in p[:7]]
    else:
        rec.nontrivial = True
        traj = pt.traj[:cur]
        anc = numpy.random.randint(0, N, M)
        old = traj[-1].pa.part.copy()
        p = m.propose_smooth(traj, anc, None, find, yt, ut, tt, cur)
        expect(numpy.array_equal(old, traj[-1].pa.part), "proposing modified the filter particles")
        mu = [tr.f(old[a], us[cur - 1], cur - 1) for a in range(N)]
        Qs = [tr.Q(old[a], us[cur - 1], cur - 1) for a in range(N)]
        W = numpy.array([numpy.linalg.solve(numpy.linalg.cholesky(Qs[anc[i]]), p[i] - mu[anc[i]]) for i in range(M)])
        whitened_ok(W, "proposal")
        lp = m.logp_proposal(p, traj, anc, None, find, yt, ut, tt, cur)
        want = [logpdf(p[i] - mu[anc[i]], Qs[anc[i]]) for i in range(M)]
        want, lp = want[:50], lp[:50]
    expect(close(numpy.ravel(lp), want, 1e-8, 1e-9), "logp_proposal %s, want %s", numpy.ravel(lp)[:5].tolist(), want[:5])
