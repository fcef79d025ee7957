"""C03: lineage -- each particle is its recorded ancestor moved one step with
the input, time and noise of that step; history is never rewritten."""
import numpy
from hypothesis import strategies as st
from vlib.core import check, expect
from vlib import trace, strat, contract
from vlib.trace import X, UID, PUID, UU, TT, EPS, NPUID, NU, NT, _num


def check_lineage(case, r, rec):
    filt, N = case["filter"], case["N"]
    for k in range(1, len(r.snaps)):
        s, p = r.snaps[k], r.snaps[k - 1]
        anc = s.anc
        expect(anc.shape == (N,) and anc.min() >= 0 and anc.max() < N, "ancestors %s", anc.tolist())
        u, y = _num(r.u[k - 1]), r.y[k]
        own = numpy.arange(N if filt not in trace.CONDITIONAL else N - 1)
        part = s.part[own]
        parent = p.part[anc[own]]
        if filt in ("pfy", "cpfyas"):
            expect(numpy.allclose(part[:, UU], _num(y)) and numpy.all(part[:, TT] == k),
                   "%s step %d: particles proposed from y=%s at time %s, measurement is %s", filt, k,
                   part[:, UU].tolist(), part[:, TT].tolist(), _num(y))
        else:
            expect(numpy.array_equal(part[:, PUID], parent[:, UID]),
                   "%s step %d: particles come from %s, recorded ancestors are %s", filt, k,
                   part[:, PUID].tolist(), parent[:, UID].tolist())
            expect(numpy.allclose(part[:, UU], u) and numpy.all(part[:, TT] == k - 1),
                   "%s step %d: propagated with u=%s t=%s instead of u=%s t=%s", filt, k,
                   part[:, UU].tolist(), part[:, TT].tolist(), u, k - 1)
        if filt in ("sir", "csiras"):
            expect(numpy.allclose(part[:, EPS], _num(y)),
                   "%s step %d: proposal used y=%s instead of %s", filt, k, part[:, EPS].tolist(), _num(y))
        elif filt not in ("pfy", "cpfyas"):
            expect(numpy.array_equal(part[:, NPUID], part[:, PUID]),
                   "%s step %d: the noise was drawn for another particle", filt, k)
            expect(numpy.allclose(part[:, NU], u) and numpy.all(part[:, NT] == k - 1),
                   "%s step %d: the noise was drawn with u=%s t=%s instead of u=%s t=%s", filt, k,
                   part[:, NU].tolist(), part[:, NT].tolist(), u, k - 1)
            if r.nonmarkov is False:
                want = r.pure.phi(parent[:, X], u, k - 1) + part[:, EPS]
                expect(numpy.allclose(part[:, X], want, rtol=1e-10, atol=1e-10),
                       "%s step %d: state %s is not the propagated ancestor %s", filt, k,
                       part[:, X].tolist(), want.tolist())
        expect(len(set(part[:, UID].tolist())) == len(own), "two particles share one new state")
        if filt not in trace.CONDITIONAL and len(set(anc.tolist())) < N:
            rec.nontrivial = True
            rec.label("branching")
        if filt in trace.CONDITIONAL:
            rec.nontrivial = True


def check_immutable(r):
    for k, s in enumerate(r.snaps):
        now = trace.Snap(r.pt[k])
        for f in ("part", "w", "anc"):
            expect(numpy.array_equal(getattr(s, f), getattr(now, f)),
                   "step %d: the stored %s changed after it was completed", k, f)
        expect(s.off == now.off, "step %d: stored weight offset changed", k)


@check("C03", strat.trace_case(trace.FILTERS, max_steps=7), quick=900, shards=2, thorough=12000,
       rule="some step has a particle with several children, or a conditional trajectory",
       need=trace.FILTERS + ("branching",))
def lineage(case, rec):
    r = trace.run(case)
    r.nonmarkov = False
    rec.label(case["filter"])
    check_lineage(case, r, rec)
    check_immutable(r)


@st.composite
def smooth_case(draw):
    c = draw(strat.trace_case(("pf", "apf"), min_steps=2, max_steps=5, Ns=[2, 3, 5, 8]))
    c["par"]["lik"] = "gauss"
    c["method"] = draw(strat.oneof("ancestor", "full", "rs", "rsas", "mcmc"))
    c["M"] = draw(st.integers(1, 9))
    return c


@check("C03", smooth_case, quick=300, thorough=4000, rule="the filter resampled before the smoothing",
       need=("ancestor", "full", "rs", "rsas", "mcmc"))
def smoothing_leaves_the_filter_alone(case, rec):
    """Running a smoother (twice) changes nothing of the filtered history, and
    the filter can be continued after it."""
    r = trace.run(case)
    r.nonmarkov = False
    rec.label(case["method"])
    rec.nontrivial = any(bool(x) for x in r.returned[1:])
    st1 = r.pt.perform_smoothing(case["M"], method=case["method"])
    check_immutable(r)
    expect(len(st1) == len(r.pt), "smoothed trajectory has %d steps instead of %d", len(st1), len(r.pt))
    keep = [numpy.array(s.pa.part, copy=True) for s in st1.traj]
    if not case["pre"]:
        r.u.append(None)
        r.u[-2] = None
        r.y.append(numpy.asarray(0.5))
        r.returned.append(r.pt.forward(None, r.y[-1]))
        r.snaps.append(trace.Snap(r.pt[len(r.snaps)]))
        case = dict(case, split=case["split"] + [False])
        r.case = case
        check_lineage(case, r, rec)
    r.pt.perform_smoothing(case["M"], method=case["method"])
    check_immutable(r)
    for k, s in enumerate(st1.traj):
        expect(numpy.array_equal(s.pa.part, keep[k]), "an earlier smoothing result changed at step %d", k)


@check("C03", strat.trace_case(("pf", "cpf"), max_steps=7), quick=500, thorough=8000,
       rule="the history has at least three steps", need=("pf", "cpf"))
def history_given_to_non_markovian_models(case, rec):
    """Models depending on the past get the inputs, measurements and time
    stamps of exactly {0:t} and the parents of exactly these particles."""
    r = trace.run(dict(case, par=dict(case["par"], lik="gauss")), kind="nonmarkov")
    r.nonmarkov = True
    rec.label(case["filter"])
    rec.nontrivial = len(r.snaps) >= 3
    check_lineage(case, r, rec)
    check_immutable(r)
    opt = lambda a: None if a is None else _num(a)
    seen = {}
    for c in r.model.calls:
        what = c["what"]
        k = seen.get(what, 0)
        seen[what] = k + 1
        if what == "measure":
            todo = [i for i in range(1, len(r.snaps)) if r.y[i] is not None]
            if case["split"][todo[k] - 1]:
                continue
            i = todo[k]
            expect(c["t"] == [float(j) for j in range(i + 1)] and len(c["y"]) == i + 1 and c["y"][-1] == _num(r.y[i]),
                   "measurement %d: got y=%s t=%s", i, c["y"], c["t"])
            expect(c["n"] == i, "measurement %d: got a past trajectory of %d steps", i, c["n"])
            upto = i
        else:
            i = k + 1
            expect(c["t"] == [float(j) for j in range(i)], "step %d: time stamps %s", i, c["t"])
            expect(c["u"] == [opt(a) for a in r.u[:i]], "step %d: inputs %s", i, c["u"])
            expect(c["n"] == i, "step %d: got a past trajectory of %d steps", i, c["n"])
            upto = i
        if c["y"] is not None:
            for j in range(min(upto, len(c["y"]))):
                if j > 0 or case["first"] is not None:
                    expect(c["y"][j] == opt(r.y[j]), "%s %d: past measurements %s", what, i, c["y"])
        s, p = r.snaps[i], r.snaps[i - 1]
        expect(numpy.array_equal(c["prev"], p.part[s.anc][:, UID]), "%s %d: other ancestors handed over", what, i)


@check("C03", contract.case_st, quick=300, thorough=5000,
       rule="at least three time indices and shared parents", need=("cpfas", "pfy", "cpfyas", "apf"))
def parents_given_to_models_with_memory(case, rec):
    """Whatever a filter asks the model (weights of proposals, ancestors of the
    retained state, ...) it hands over with the recorded parents of exactly
    these particles."""
    m, pt, j = contract.run(case)
    rec.label(case["filter"])
    rec.nontrivial = j.T >= 3 and any(len(set(a.tolist())) < len(a) for a in j.anc[1:])
    for c in m.log:
        who = "%s, %s" % (case["filter"], c["name"])
        if c["name"] in ("measure", "single"):
            k = c["cur"] if c["name"] == "single" else len(c["t"]) - 1
            j.parents(c["part"], c["anc"], k, who)
            if k > 0:
                j.past_is_filter(c, k, who)
        else:
            k = len(c["t"])
            contract.same(c["anc"], j.anc[k], "%s: parents of index %d", who, k)
            j.past_is_filter(c, k, who)
