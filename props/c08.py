"""C08: the ancestor smoother returns genuine filter lineages."""
import numpy
from hypothesis import strategies as st
from vlib.core import check, expect
from vlib import trace, strat
from vlib.stats import normlog, counts_ok
from vlib.trace import UID


@st.composite
def case_st(draw):
    c = draw(strat.trace_case(trace.FILTERS, min_steps=1, max_steps=7, Ns=[1, 2, 3, 6, 12]))
    c["M"] = draw(strat.oneof(1, 2, 5, 9, 30, 100))
    return c


@check("C08", case_st, quick=800, shards=2, thorough=12000,
       rule="at least two different lineages and one shared ancestor, or a lineage through a resampling",
       need=trace.FILTERS + ("merged", "missing-last"))
def genuine_lineages(case, rec):
    r = trace.run(case)
    if r.dead:
        return
    rec.label(case["filter"])
    T, M, N = len(r.snaps), case["M"], case["N"]
    if r.y[T - 1] is None:
        rec.label("missing-last")
    straj = r.pt.perform_smoothing(M, method="ancestor")
    expect(len(straj) == T, "%d smoothed steps for %d", len(straj), T)
    est = straj.get_smoothed_estimates()
    expect(est.shape == (T, M, trace.WIDTH), "estimates of shape %s", est.shape)
    last = r.snaps[-1]
    idx = []
    for row in est[-1]:
        m = numpy.nonzero(last.part[:, UID] == row[UID])[0]
        expect(len(m) == 1 and numpy.array_equal(last.part[m[0]], row), "final state is not a filter particle")
        idx.append(m[0])
    idx = numpy.array(idx)
    w = numpy.exp(normlog(last.w))
    cnt = numpy.bincount(idx, minlength=N)
    expect(numpy.all(cnt >= numpy.floor(M * w - 1e-6)) and numpy.all(cnt <= numpy.ceil(M * w + 1e-6)),
           "final states drawn %s times with weights %s", cnt.tolist(), w.tolist())
    final = idx
    for k in reversed(range(T - 1)):
        idx = r.snaps[k + 1].anc[idx]
        want = r.snaps[k].part[idx]
        expect(numpy.array_equal(est[k], want),
               "index %d: trajectories pass through %s, lineages through %s", k,
               est[k][:, UID].tolist(), want[:, UID].tolist())
    if len(set(final.tolist())) > len(set(idx.tolist())):
        rec.label("merged")
        rec.nontrivial = True
    if any(bool(x) for x in r.returned[1:]) and N > 1:
        rec.nontrivial = True


@st.composite
def law_case(draw):
    c = draw(strat.trace_case(("pf", "apf"), min_steps=1, max_steps=3, Ns=[2, 3, 4]))
    c["par"]["lik"] = "gauss"
    c["par"]["scale"] = 0.1
    return c


@check("C08", law_case, quick=25, thorough=400, rule="non-degenerate final weights")
def single_draws_follow_the_weights(case, rec):
    r = trace.run(case)
    w = numpy.exp(normlog(r.snaps[-1].w))
    rec.nontrivial = w.max() < 0.95
    order = {u: i for i, u in enumerate(r.snaps[-1].part[:, UID])}
    cnt = numpy.zeros(case["N"], dtype=int)
    for _ in range(600):
        s = r.pt.perform_smoothing(1, method="ancestor")
        cnt[order[s.traj[-1].pa.part[0, UID]]] += 1
    expect(counts_ok(cnt, w), "single trajectories end in the particles %s times, weights %s", cnt.tolist(),
           w.tolist())
