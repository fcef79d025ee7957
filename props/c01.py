"""C01: every filter gives each particle exactly its importance weight."""
import numpy
from vlib.core import check, expect
from vlib import trace, strat


def describe(case, rec, r):
    rec.label(case["filter"], "pre" if case["pre"] else "grow",
              "first" if case["first"] is not None else "nofirst")
    if any(s[1] is None for s in case["steps"]):
        rec.label("missing")
    if any(c and s[1] is not None for c, s in zip(case["split"], case["steps"])):
        rec.label("split")
    if case["N"] == 1:
        rec.label("N1")
    res = [trace.resampled(r, k) for k in range(1, len(r.snaps))]
    if any(res):
        rec.label("resampled")
    if not all(res):
        rec.label("kept")


def nontrivial(r):
    """Weights which matter: at least two distinct ones at some step after the first."""
    for s in r.snaps[1:]:
        if numpy.sum(numpy.isfinite(s.w)) > 1 and numpy.ptp(s.w[numpy.isfinite(s.w)]) > 1e-6:
            return True
    return False


@check("C01", strat.trace_case(trace.FILTERS), quick=900, shards=2, thorough=12000,
       rule="some step after the first has unequal weights",
       need=trace.FILTERS + ("pre", "grow", "first", "nofirst", "missing", "split", "resampled", "kept"))
def weights(case, rec):
    r = trace.run(case)
    describe(case, rec, r)
    rec.nontrivial = nontrivial(r)
    for k, s in enumerate(r.snaps):
        expect(s.w.shape == (case["N"],), "step %d: %s weights for %d particles", k, s.w.shape, case["N"])
        expect(s.part.shape == (case["N"], trace.WIDTH), "step %d: particles of shape %s", k, s.part.shape)
        want = trace.expected_logw(r, k)
        expect(trace.close_logw(s.w, want),
               "%s: log-weights at step %d are %s, importance weights are %s",
               case["filter"], k, trace.normlog(s.w).tolist(), trace.normlog(want).tolist())


@check("C01", strat.trace_case(("pf", "sir", "apf"), Ns=[1, 2, 5, 12]), quick=300, thorough=4000,
       rule="some step after the first has unequal weights")
def weights_extreme_scale(case, rec):
    """Same exactness when log-likelihoods have a very large spread."""
    case = dict(case)
    case["par"] = dict(case["par"], scale=case["par"]["scale"] * 100.0, lik="gauss")
    r = trace.run(case)
    rec.nontrivial = nontrivial(r)
    for k, s in enumerate(r.snaps):
        expect(trace.close_logw(s.w, trace.expected_logw(r, k)),
               "%s: log-weights at step %d are %s, importance weights are %s",
               case["filter"], k, s.w.tolist(), trace.normlog(trace.expected_logw(r, k)).tolist())


OFFSET = ("pf", "sir", "pfy", "cpf", "cpfas", "cpfyas")


@check("C01", strat.trace_case(OFFSET), quick=400, thorough=6000,
       rule="a measurement was processed without resampling, or resampling is unconditional",
       need=OFFSET + ("offset",))
def normalising_offset(case, rec):
    """Stored weight plus the stored offset is the unnormalised weight: previous
    stored weight (-log N after resampling) plus the log-likelihood ratio of the
    step, so the likelihood can be recovered."""
    r = trace.run(case)
    filt = case["filter"]
    rec.label(filt)
    for k, s in enumerate(r.snaps):
        if r.y[k] is None or (k == 0 and filt in ("pfy", "cpfyas")):
            continue
        N = len(s.w)
        x = s.part[:, trace.X]
        bases = [-numpy.log(N) * numpy.ones(N)]
        if filt == "cpfyas":            # always resampled: a constant either way
            bases.append(numpy.zeros(N))
            rec.nontrivial = True
        elif k > 0 and not trace.resampled(r, k):
            bases = [r.snaps[k - 1].w[s.anc]]
            rec.label("offset")
            rec.nontrivial = True
        if filt in ("cpf", "cpfas"):
            rec.nontrivial = True
        inc = 0.0
        if filt not in ("pfy", "cpfyas"):
            inc = r.pure.loglik(x, r.y[k], k)
        if k > 0 and filt in ("sir", "pfy", "cpfyas"):
            px = r.snaps[k - 1].part[s.anc][:, trace.X]
            inc = inc + r.pure.logtrans(px, x, r.u[k - 1], k - 1)
            if filt == "sir":
                inc = inc - r.pure.logq(px, x, r.u[k - 1], r.y[k], k - 1)
        got = s.w + s.off
        ok = False
        for base in bases:
            want = base + inc
            fin = numpy.isfinite(want)
            expect(numpy.all(numpy.isfinite(got) == fin), "%s: support of the weights at step %d", filt, k)
            ok = ok or numpy.allclose(got[fin], want[fin], rtol=1e-9, atol=1e-9)
        expect(ok, "%s, step %d: weight+offset %s, unnormalised log-weight %s", filt, k, got.tolist(), want.tolist())
