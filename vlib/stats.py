"""Exact comparison of observed counts with a discrete law."""
import numpy
from scipy import stats

P_LIMIT = 1e-9


def logsumexp(a, axis=None):
    a = numpy.asarray(a, dtype=float)
    m = numpy.max(a, axis=axis, keepdims=True)
    m = numpy.where(numpy.isfinite(m), m, 0.0)
    s = numpy.log(numpy.sum(numpy.exp(a - m), axis=axis, keepdims=True)) + m
    if axis is None:
        return float(s.reshape(-1)[0])
    return numpy.squeeze(s, axis=axis)


def normlog(w):
    w = numpy.asarray(w, dtype=float)
    return w - logsumexp(w)


def count_pvalue(counts, probs):
    """Smallest Bonferroni-corrected exact binomial two-sided p-value over the
    cells.  Cells of probability ~0 must be empty."""
    counts = numpy.asarray(counts)
    probs = numpy.asarray(probs, dtype=float)
    probs = probs / probs.sum()
    n = int(counts.sum())
    worst, where = 1.0, None
    if n == 0:
        return worst, where
    for i, (c, p) in enumerate(zip(counts, probs)):
        if p < 1e-14:
            if c:
                return 0.0, i
            continue
        q = min(1.0, 2 * min(stats.binom.cdf(c, n, p), stats.binom.sf(c - 1, n, p))) * len(probs)
        if q < worst:
            worst, where = q, i
    return worst, where


def counts_ok(counts, probs):
    p, _ = count_pvalue(counts, probs)
    return p > P_LIMIT


def mean_ok(samples, mean, var, z=7.5, slack=0.0):
    """Sample mean within z standard errors (exact variance)."""
    samples = numpy.asarray(samples, dtype=float)
    se = numpy.sqrt(numpy.maximum(var, 0) / len(samples))
    return abs(samples.mean() - mean) <= z * se + slack + 1e-9 * (1 + abs(mean))
