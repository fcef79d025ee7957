"""C21: bounds used by rejection sampling."""
import numpy
from hypothesis import strategies as st
from vlib.core import check, expect
from vlib import models, gauss
from props.c12 import BOTH
from props import c17, c20


def compare(m, part, dens, modes, u, t, rec, rng, dim, what):
    """dens(i, x): exact log density of next state x from particle i;
    modes[i]: the most likely next state of particle i"""
    N = len(part)
    keep = part.copy()
    b = m.logp_xnext_max(part, u, t)
    expect(numpy.size(b) in (1, N), "%s: logp_xnext_max has %d elements for %d particles", what, numpy.size(b), N)
    best = float(numpy.max(b))
    expect(numpy.array_equal(keep, part), "logp_xnext_max modified the particles")
    full = m.logp_xnext_max_full(part, None, None, [u] * (t + 1), [None] * (t + 1), list(range(t + 1)), t)
    expect(numpy.allclose(numpy.max(full), best, rtol=1e-12), "logp_xnext_max_full %r, logp_xnext_max %r", numpy.max(full), best)
    # never below the density of any next state
    top = -numpy.inf
    cand = [modes[i] + s * rng.normal(size=dim) for i in range(N) for s in (0.0, 1e-3, 0.3, 2.0)]
    for x in cand:
        nx = numpy.zeros((N, part.shape[1]))
        nx[:, :dim] = x
        lp = numpy.ravel(m.logp_xnext(part, nx, u, t))
        for i in range(N):
            d = dens(i, x)
            top = max(top, d)
            tol = 1e-8 * (1 + abs(d))
            expect(d <= best + tol, "%s: density %r of a next state is above the bound %r", what, d, best)
            expect(lp[i] <= best + tol, "%s: logp_xnext %r is above the bound %r", what, lp[i], best)
    # and reached by the most likely one
    expect(best <= top + 1e-7 * (1 + abs(top)), "%s: bound %r, highest density of all next states %r", what, best, top)
    rec.label(what)


@check("C21", models.nlg_case, quick=300, thorough=6000, configs=BOTH, rule="particle dependent noise and several particles")
def nonlinear_gaussian(case, rec):
    tr = models.NLGTruth(case)
    m = models.nlg_model(tr)
    N = case["N"]
    x = models.some_copies(tr.rng, models.mat(tr.rng, N, tr.lx, scale=2.0) * tr.v)
    u = float(tr.rng.uniform(-1, 1)) if case["u"] else None
    t = case["t"]
    rec.nontrivial = N > 1 and case["dep"]["Q"] == "part"
    compare(m, x, lambda i, y: gauss.logpdf(y - tr.f(x[i], u, t), tr.Q(x[i], u, t)),
            [tr.f(a, u, t) for a in x], u, t, rec, tr.rng, tr.lx, "NonlinearGaussian")


@check("C21", c17.step_case, quick=300, thorough=6000, configs=BOTH, rule="particle dependent matrices and several particles")
def mixed(case, rec):
    tr = models.MLNLGTruth(case)
    m = models.mlnlg_model(tr)
    part, xi, z, P, u, t = c17.particles(tr, m, case)
    N = case["N"]
    rec.nontrivial = N > 1 and "part" in case["dep"].values()
    mu, S = [], []
    for i in range(N):
        A = tr.A(xi[i], u, t)
        mu.append((A.dot(z[i]) + tr.f(xi[i], u, t)).ravel())
        S.append(A.dot(P[i]).dot(A.T) + tr.Q(xi[i], u, t))
    compare(m, part, lambda i, x: gauss.logpdf(x - mu[i], S[i]), mu, u, t, rec, tr.rng, tr.lxi + tr.lz, "MixedNLGaussian")


@check("C21", c20.case_st, quick=300, thorough=6000, configs=BOTH, rule="particle dependent matrices and several particles")
def hierarchical(case, rec):
    case = dict(case, rs=True)
    tr = models.HierTruth(case)
    m = models.hier_model(tr)
    N = case["N"]
    part, xi, z, P = c20.particles(tr, m, N)
    t = int(tr.rng.randint(0, 5))
    u = float(tr.rng.uniform(-1, 1)) if case["u"] else None
    rec.nontrivial = N > 1 and "part" in case["dep"].values()
    modes, S = [], []
    for i in range(N):
        A, f, Q = (tr.get(a, xi[i], u, t) for a in ("Az", "fz", "Qz"))
        modes.append(numpy.concatenate((tr.fx(xi[i], u, t), A.dot(z[i]) + f.ravel())))
        S.append(A.dot(P[i]).dot(A.T) + Q)
    k = tr.lxi
    compare(m, part, lambda i, x: tr.logp_xi(xi[i], x[:k], u, t) + gauss.logpdf(x[k:] - modes[i][k:], S[i]),
            modes, u, t, rec, tr.rng, k + tr.lz, "Hierarchical")
