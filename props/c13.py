"""C13: the Gaussian log-density helpers are the Gaussian log density."""
import numpy
import scipy.linalg
from hypothesis import strategies as st
from vlib.core import check, expect
from vlib import strat, gauss
from vlib.gauss import rnd, pd, close, laid
from props.c12 import kmod, BOTH


@st.composite
def case_st(draw):
    big = draw(st.integers(0, 4)) == 0
    return dict(d=draw(st.integers(15, 60)) if big else draw(st.integers(1, 5)), N=draw(strat.size(st.integers(1, 6), 30)), lower=draw(st.booleans()),
                seed=draw(strat.seeds), scale=draw(strat.oneof(1.0, 1e-4, 1e6, 1e-8, 1e-30, 1e25)),
                like=draw(strat.oneof("", "same", "diagonal", "order", "values", "trace", "determinant", "first")),
                lay=draw(strat.oneof("C", "C", "F", "view", "ro")), es=draw(strat.oneof(1.0, 1e-3, 1e4, 0.0)))


@check("C13", case_st, quick=600, thorough=12000, configs=BOTH, rule="dimension of at least two",
       need=("lower", "upper", "scaled", "determinant out of range", "related covariances"))
def densities(case, rec):
    k = kmod()
    rng = numpy.random.RandomState(case["seed"])
    d, N = case["d"], case["N"]
    S = pd(rng, d) * case["scale"]
    rec.label("lower" if case["lower"] else "upper", "scaled" if case["scale"] != 1 else None)
    rec.nontrivial = d >= 2
    if abs(numpy.linalg.slogdet(S)[1]) > 710:
        rec.label("determinant out of range", "related covariances")
    errs = rnd(rng, N, d, 1) * numpy.sqrt(case["scale"]) * case["es"]
    want = numpy.array([gauss.logpdf(e, S) for e in errs])
    cho = scipy.linalg.cho_factor(S, lower=case["lower"])
    lay = lambda a: laid(case["lay"], a)
    rec.label("layout " + case["lay"])
    S, errs, cho = lay(S), lay(errs), (lay(cho[0]), cho[1])
    keep = errs.copy()

    def same(got, what):
        expect(close(numpy.ravel(got), want[:numpy.size(got)], rtol=1e-8), "%s: %s, log density %s", what,
               numpy.ravel(got), want.tolist())
    for i in range(N):
        for e in (errs[i], errs[i].ravel()):
            g = k.lognormpdf(e, S)
            expect(close(numpy.ravel(g), want[i:i + 1], rtol=1e-8), "lognormpdf: %s, log density %s", g, want[i])
            g = k.lognormpdf_cho(e, cho)
            expect(close(numpy.ravel(g), want[i:i + 1], rtol=1e-8), "lognormpdf_cho: %s, log density %s", g, want[i])
    for e in (errs, errs.reshape(N, d)):
        g = k.lognormpdf_cho_vec(e, cho)
        expect(numpy.shape(g) == (N,), "shape %s", numpy.shape(g))
        same(g, "lognormpdf_cho_vec")
    Sl = [pd(rng, d) * case["scale"] for _ in range(N)]
    if case["like"]:
        rec.label("related covariances")
    for i in range(1, N):
        # covariances which agree with the one before in some respect
        if case["like"] == "same":
            Sl[i] = Sl[i - 1].copy() if i % 2 else Sl[i]
        elif case["like"] == "diagonal":
            Sl[i] = numpy.diag(numpy.diag(Sl[i - 1])) if i % 2 else Sl[i]
        elif case["like"] == "order":
            Sl[i] = Sl[i - 1][::-1, ::-1].copy()
        elif case["like"] == "values":
            # the same diagonal elements, differently arranged
            Sl[0] = numpy.diag(numpy.diag(Sl[0]))
            Sl[i] = numpy.diag(numpy.roll(numpy.diag(Sl[i - 1]), 1))
        elif case["like"] == "trace":
            Sl[0] = numpy.diag(numpy.arange(1.0, d + 1)) * case["scale"]
            Sl[i] = numpy.eye(d) * (d + 1) / 2 * case["scale"] if i % 2 else Sl[0]
        elif case["like"] == "determinant":
            Sl[i] = Sl[i - 1] * numpy.outer(*[numpy.exp(numpy.arange(d) - (d - 1) / 2.0)] * 2) if d < 6 else Sl[i]
        elif case["like"] == "first":
            Sl[i][0] = Sl[i - 1][0]
            Sl[i][:, 0] = Sl[i - 1][:, 0]
            Sl[i][0, 0] = Sl[i - 1][0, 0]
            if numpy.min(numpy.linalg.eigvalsh(Sl[i])) < 1e-2 * numpy.max(numpy.abs(Sl[i])):
                Sl[i] = pd(rng, d) * case["scale"]
    w2 = [gauss.logpdf(e, s) for e, s in zip(errs, Sl)]
    Sl = [lay(v) for v in Sl]
    for e in (errs, errs.reshape(N, d)):
        g = k.lognormpdf_vec(e, Sl)
        expect(numpy.shape(g) == (N,) and close(g, w2, rtol=1e-8), "lognormpdf_vec: %s, log density %s", g, w2)
    if d == 1:
        for e in (errs, errs.ravel(), errs.reshape(N, 1)):
            g = k.lognormpdf_scalar(e, S)
            expect(numpy.shape(g) == (N,), "shape %s", numpy.shape(g))
            same(g, "lognormpdf_scalar")
    expect(numpy.array_equal(errs, keep), "the errors handed over were modified")
