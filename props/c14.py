"""C14: the helper routines behind the expected log likelihoods and their
gradients are exact, and both implementations of the helpers give the same
filters, smoothers, criteria and gradients."""
import sys
import numpy
from hypothesis import strategies as st
from vlib.core import check, expect
from vlib import strat, models, pmodels
from vlib.gauss import rnd, pd
from vlib.peer import Peer
from props.c12 import BOTH
from props import c18, c20, c22, c23


def hmod():
    m = sys.modules.get("pyparticleest.utils.cmlnlg_compute")
    if m is None:
        import pyparticleest.utils.mlnlg_compute as m
    return m


@st.composite
def helper_case(draw):
    return dict(N=draw(strat.size(st.integers(1, 4), 12, 20, 300)), p=draw(strat.size(st.integers(1, 3), 5)), lxi=draw(st.integers(0, 2)),
                lz=draw(st.integers(1, 3)), seed=draw(strat.seeds), lower=draw(st.booleans()),
                acc=draw(st.booleans()), order=draw(strat.oneof("C", "T")))


def same(a, b, what, tol=1e-9):
    a, b = numpy.asarray(a, float), numpy.asarray(b, float)
    expect(a.shape == b.shape and numpy.allclose(a, b, rtol=tol, atol=tol), "%s: %s, exact %s", what,
           numpy.array2string(a, threshold=40), numpy.array2string(b, threshold=40))


class Data(object):
    """random second-moment problem: x_{t+1} = f + A z + noise, of which the
    last lz elements are themselves uncertain"""

    def __init__(self, c):
        rng = self.rng = numpy.random.RandomState(c["seed"])
        N, p, lxi, lz = c["N"], c["p"], c["lxi"], c["lz"]
        dim = lxi + lz
        r = lambda *s: rnd(rng, *s) if c["order"] == "C" else rnd(rng, *s[::-1]).T
        self.xn, self.f, self.A = r(N, dim, 1), r(N, dim, 1), r(N, dim, lz)
        self.zl = r(N, lz, 1)
        self.Pl = numpy.array([pd(rng, lz) for _ in range(N)])
        self.Pn = numpy.array([pd(rng, lz) for _ in range(N)])
        self.M = r(N, lz, lz)
        self.fg, self.Ag = r(N, p, dim, 1), r(N, p, dim, lz)
        self.inputs = {k: v for k, v in vars(self).items() if isinstance(v, numpy.ndarray)}
        self.copies = {k: v.copy() for k, v in self.inputs.items()}

    def unchanged(self):
        for k, v in self.inputs.items():
            expect(numpy.array_equal(v, self.copies[k]), "the helper changed its input %s", k)


def l2(xn, f, A, zl, Pn, Pl, M, lxi):
    """E[(x - f - A z)(x - f - A z)^T] for x = [xi; z'], z' uncertain"""
    dim, lz = A.shape
    e = xn - f - A.dot(zl)
    S = numpy.zeros((dim + lz, dim + lz))    # covariance of (x, z)
    S[lxi:dim, lxi:dim] = Pn
    S[dim:, dim:] = Pl
    S[dim:, lxi:dim] = M
    S[lxi:dim, dim:] = M.T
    T = numpy.hstack((numpy.eye(dim), -A))
    return e.dot(e.T) + T.dot(S).dot(T.T)


@check("C14", helper_case, quick=400, thorough=10000, configs=BOTH, rule="more than one particle, parameter and linear state",
       need=("accumulates", "no-nonlinear-states", "lower", "upper"))
def helpers_are_exact(case, rec):
    import scipy.linalg
    h = hmod()
    d = Data(case)
    N, p, lxi, lz = case["N"], case["p"], case["lxi"], case["lz"]
    dim = lxi + lz
    rec.label("accumulates" if case["acc"] else "", "" if lxi else "no-nonlinear-states", "lower" if case["lower"] else "upper")
    rec.nontrivial = N > 1 and p > 1 and lz > 1
    perr = numpy.empty((N, dim, 1))
    h.compute_pred_err(N, dim, d.xn, d.f, d.A, d.zl, perr)
    same(perr, [d.xn[i] - d.f[i] - d.A[i].dot(d.zl[i]) for i in range(N)], "compute_pred_err")
    out = d.rng.uniform(-3, 3, (N, dim, dim))
    h.compute_l2(N, lxi, dim, perr, d.Pn, d.A, d.Pl, d.M, out)
    same(out, [l2(d.xn[i], d.f[i], d.A[i], d.zl[i], d.Pn[i], d.Pl[i], d.M[i], lxi) for i in range(N)], "compute_l2")
    d.unchanged()

    def moment(i, j, e, which):
        f = d.f[i] + (e * d.fg[i, j] if which == "f" else 0.0)
        A = d.A[i] + (e * d.Ag[i, j] if which == "A" else 0.0)
        return l2(d.xn[i], f, A, d.zl[i], d.Pn[i], d.Pl[i], d.M[i], lxi)
    base = d.rng.uniform(-3, 3, (N, p, dim, dim)) if case["acc"] else numpy.zeros((N, p, dim, dim))
    perr0 = perr.copy()
    for which in "fA":
        # second moments are quadratic in theta: central differences are exact
        want = numpy.array([[(moment(i, j, 0.5, which) - moment(i, j, -0.5, which)) for j in range(p)] for i in range(N)])
        out = base.copy()
        if which == "f":
            h.compute_l2_grad_f(N, p, dim, out, perr, numpy.ascontiguousarray(d.fg), numpy.empty((dim, dim)))
        else:
            h.compute_l2_grad_A(N, p, dim, out, perr, lxi, d.Pn, d.zl, d.Pl, d.M, d.A, d.Ag,
                                numpy.empty((dim, dim)), numpy.empty((dim, lz)))
        same(out - base, want, "compute_l2_grad_%s adds" % which)
        expect(numpy.array_equal(perr, perr0), "the helper changed perr")
        d.unchanged()
    # d/dx (logdet A + tr(A^-1 B))
    A, B = pd(d.rng, dim), pd(d.rng, dim)
    dA, dB = rnd(d.rng, dim, dim), rnd(d.rng, dim, dim)
    dA, dB = dA + dA.T, dB + dB.T
    cho = scipy.linalg.cho_factor(A, lower=case["lower"])
    keep = [v.copy() for v in (cho[0], dA, B, dB)]
    got = h.compute_logprod_derivative(cho, dA, B, dB)
    Ai = numpy.linalg.inv(A)
    want = numpy.trace(Ai.dot(dA)) - numpy.trace(Ai.dot(dA).dot(Ai).dot(B)) + numpy.trace(Ai.dot(dB))
    expect(numpy.size(got) == 1 and abs(float(got) - want) <= 1e-8 * (1 + abs(want) + numpy.abs(Ai).max() ** 2 * 10),
           "compute_logprod_derivative gives %r, exact %r", got, want)
    expect(all(numpy.array_equal(a, b) for a, b in zip(keep, (cho[0], dA, B, dB))), "compute_logprod_derivative changed its inputs")


# ---------------------------------------------------------------------------
# whole runs with either implementation
# ---------------------------------------------------------------------------
@st.composite
def run_case(draw):
    kind = draw(strat.oneof("ltv", "mix", "mix", "nlg", "hier"))
    c = draw({"ltv": c22.ltv_st, "mix": c22.mix_st, "nlg": c22.nlg_st, "hier": c20.case_st}[kind]())
    return dict(kind=kind, case=c)


def signature(rc):
    """Everything a user sees of one run, as a list of (name, array)."""
    kind, case = rc["kind"], rc["case"]
    numpy.random.seed(case["seed"] % 2 ** 31)
    grad = True
    if kind == "ltv":
        tr = pmodels.LTVPar(case)
        m = pmodels.ltv_par_model(tr, grad=True, none_as_zero=case["none"])
        y = ([tr.y0] if case["first"] else []) + tr.y
        sim = models.lib().simulator.Simulator(m, u=tr.u, y=y)
        sim.simulate(2, 2, smoother="full", meas_first=case["first"])
    elif kind == "mix":
        if case["kind"] == "marginalized" and case["smoother"] == "mhbp":
            case = dict(case, smoother="full")
        tr = pmodels.MixPar(case)
        m = pmodels.mix_par_model(tr, kind=case["kind"], grad=True)
        sim = c18.simulate(tr, m, case, case["N"], case["M"], case["smoother"],
                           {"R": 2} if case["smoother"] in ("mcmc", "mhips", "mhbp") else None)
    elif kind == "nlg":
        grad = False
        tr = pmodels.NLGPar(case)
        m = pmodels.nlg_par_model(tr)
        n = case["n"]
        col = case["yform"] == "col"
        ys = [None if q else tr.rng.uniform(-2, 2, (tr.ly, 1) if col else tr.ly) for q in [not case["first"]] + case["miss"]]
        us = [float(tr.rng.uniform(-1, 1)) if case["u"] else None for _ in range(n)]
        sim = models.lib().simulator.Simulator(m, u=us, y=ys if case["first"] else ys[1:])
        sim.simulate(case["N"], case["M"], smoother=case["smoother"], meas_first=case["first"],
                     smoother_options={"R": 2} if case["smoother"] in ("rs", "mcmc", "mhips", "mhbp") else None)
    else:
        tr = models.HierTruth(case)
        m = models.hier_model(tr)
        sim = c20.simulate(tr, m, case, case["N"], case["M"], case["smoother"], c20.OPTS.get(case["smoother"]))
    est, w = sim.get_filtered_estimates()
    res = [("filtered estimates", est), ("weights", w), ("smoothed estimates", sim.get_smoothed_estimates()),
           ("log-likelihood", numpy.array([s.pa.w_offset for s in sim.pt.traj]))]
    if kind != "hier":
        for th in case["alt"]:
            m.set_params(numpy.array(th))
            res.append(("criteria", c22.terms(m, sim.straj)))
            if grad:
                g = c23.val_grads(m, sim.straj)
                res.append(("gradients", numpy.concatenate([v[1] for v in g])))
    return [(k, numpy.array(v, dtype=float)) for k, v in res]


_peer = []


def safe(case):
    try:
        return ("ok", signature(case))
    except Exception as e:                  # noqa: BLE001
        return ("error", "%s: %s" % (type(e).__name__, e))


@check("C14", run_case, quick=250, thorough=5000, configs=("ext",), shards=2,
       rule="a run with more than one step and particle", need=("ltv", "mix", "nlg", "hier"))
def both_implementations_agree(case, rec):
    if not _peer:
        _peer.append(Peer("pure", "props.c14", "signature"))
    try:
        there = _peer[0].call(case)
    except EOFError:
        del _peer[:]
        raise
    here = safe(case)
    expect(here[0] == there[0], "compiled helpers: %s, pure Python helpers: %s",
           here[1] if here[0] == "error" else "a result", there[1] if there[0] == "error" else "a result")
    rec.label(case["kind"])
    if here[0] == "error":
        return
    rec.nontrivial = case["case"]["n"] > 1
    for (k, a), (_k, b) in zip(here[1], there[1]):
        expect(a.shape == b.shape and numpy.allclose(a, b, rtol=1e-7, atol=1e-8, equal_nan=True),
               "%s: compiled helpers give %s, pure Python ones %s", k,
               numpy.array2string(a, threshold=30), numpy.array2string(b, threshold=30))
