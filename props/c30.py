"""C30: what models are told in every call -- past, parents, future, data, time."""
import copy
import numpy
from hypothesis import strategies as st
from vlib.core import check, expect
from vlib import strat, contract
from vlib.contract import UID, STEP, FILTERS, case_st, run, same

SMOOTHERS = ("ancestor", "full", "rs", "rsas", "mcmc", "mhips", "mhips_reduced", "mhbp")


@st.composite
def smooth_st(draw):
    c = draw(case_st())
    c["smoother"] = draw(st.sampled_from(SMOOTHERS))
    c["M"] = draw(strat.oneof(1, 2, 3, 6, 11))
    c["R"] = draw(st.integers(1, 4))
    c["post"] = draw(st.booleans())
    return c


@check("C30", case_st, quick=500, thorough=8000, need=FILTERS,
       rule="at least three time indices and, if the filter resamples, shared parents")
def told_by_filters(case, rec):
    m, pt, j = run(case)
    rec.label(case["filter"])
    rec.nontrivial = j.T >= 3 and any(len(set(a.tolist())) < len(a) for a in j.anc[1:])
    N = case["N"]
    for c in m.log:
        who = "%s, %s" % (case["filter"], c["name"])
        if c["name"] in ("noise", "update"):
            k = len(c["t"])
            j.data(c, k, who)
            expect(len(c["u"]) == k, "%s: %d inputs for the step from index %d", who, len(c["u"]), k - 1)
            j.past_is_filter(c, k, who)
            same(c["anc"], j.anc[k], "%s: parents of index %d", who, k)
            if c["name"] == "update":
                same(c["part"][:, UID], j.part[k - 1][c["anc"], UID], "%s: particles handed over for index %d", who, k)
                same(c["noise"][:, 1], c["part"][:, UID], "%s: noise drawn for these particles", who)
        elif c["name"] == "measure":
            k = len(c["t"]) - 1
            j.data(c, k + 1, who, k)
            expect(len(c["y"]) == k + 1 and c["y"][-1] == j.y[k], "%s: the last measurement is not that of index %d", who, k)
            same(c["part"], j.part[k], "%s: particles of index %d", who, k)
            if k > 0:
                j.past_is_filter(c, k, who)
                j.parents(c["part"], c["anc"], k, who)
        elif c["name"] == "single":
            k = c["cur"]
            j.data(c, k + 1, who)
            expect(c["t"][k + 1] == k + 1 and c["y"][k + 1] == j.y[k + 1], "%s: time or measurement of index %d", who, k + 1)
            j.past_is_filter(c, k, who)
            j.parents(c["part"], c["anc"], k, who)
            nxt = c["next"][c["find"]]
            if len(c["next"]) == N and not (c["next"][:, UID] < 0).all():
                # proposals from the measurement: paired with their parents
                same(nxt, j.part[k + 1], "%s: next particles", who)
                same(c["part"][:, UID], j.part[k][j.anc[k + 1], UID], "%s: parents of the next particles", who)
            else:
                same(c["part"], j.part[k], "%s: candidates for the ancestor", who)
                same(nxt[:, UID], [-1001.0 - k] * N, "%s: conditional state", who)
        else:
            expect(False, "unexpected call %s", who)


@check("C30", smooth_st, quick=800, shards=2, thorough=10000, need=SMOOTHERS,
       rule="at least three time indices, more than one trajectory")
def told_by_smoothers(case, rec):
    m, pt, j = run(case)
    meth, M, N, T = case["smoother"], case["M"], case["N"], j.T
    rec.label(meth)
    rec.nontrivial = T >= 3 and M > 1
    if T < 2:
        return
    m.log, m.smoothing = [], meth
    opts = {"R": case["R"]} if meth in ("mcmc", "mhips", "mhips_reduced", "mhbp", "rs") else None
    posts = []

    def post_smoothing(st):
        # (the finished trajectories; what it makes of them is the result)
        posts.append([s.pa.part.copy() for s in st.traj])
        expect(len(st.u) in (T - 1, T) and len(st.y) == len(st.t) == T, "data of %d, %d and %d steps", len(st.u), len(st.y), len(st.t))
        new = copy.deepcopy(st.traj)
        for s in new:
            s.pa.part[:, contract.X] += 1000.0
        return new
    if case["post"]:
        m.post_smoothing = post_smoothing
    straj = pt.perform_smoothing(M, method=meth, smoother_options=opts)
    ar = numpy.arange(M)
    latest = [None] * T             # what sample_smooth last returned for each index
    start = None                    # trajectories at the start of the MHIPS pass
    pair = {}                       # MHBP: parent with which a state was drawn
    mhips, mhbp = meth.startswith("mhips"), meth == "mhbp"
    names = set()
    for c in m.log:
        name = c["name"]
        names.add(name)
        who = "%s, %s" % (meth, name)
        if name == "pass":
            start = c["past"]
            expect(len(start) == T, "%s: %d steps", who, len(start))
            for k in range(T):
                same(start[k], latest[k], "%s: trajectories at index %d", who, k)
            continue
        if name in ("initial", "condinitial"):
            expect(float(c["time"]) == 0.0 and (c["part"][:, STEP] == 0).all(), "%s: not of the first index", who)
            continue
        k = c["cur"] if "cur" in c else len(c["t"]) - (1 if name == "measure" else 0)
        who += " at index %d" % k
        j.data(c, T if "cur" in c else len(c["t"]), who, k if name == "measure" else None)
        # -- the future: what has been drawn for the later indices --------
        if "future" in c:
            if k == T - 1:
                expect(not c["future"], "%s: a future behind the last index", who)
            else:
                expect(len(c["future"]) == T - 1 - k, "%s: a future of %d steps instead of %d", who, len(c["future"]),
                       T - 1 - k)
                for d, f in enumerate(c["future"]):
                    same(f, latest[k + 1 + d], "%s: future of index %d", who, k + 1 + d)
            if name in ("smooth", "propose", "proposal") and (k < T - 1 or mhips or mhbp) and c["find"] is not None:
                same(c["find"], ar, "%s: trajectories", who)
            elif k < T - 1:
                expect(len(c["find"]) == len(c["part"]) and ((c["find"] >= 0) & (c["find"] < M)).all(), "%s: trajectories %s",
                       who, c["find"].tolist())
        # -- the past and the parents --------------------------------------
        past_end = k - 1 if name in ("noise", "update") else k
        if name in ("noise", "update"):
            past_end = k
        first = past_end == 0
        if name in ("single", "condpredict"):
            first = k == 0
        if not (mhips or mhbp) or (name == "smooth" and start is None and not mhbp):
            # backward simulation and lineages: particles of the filter
            j.past_is_filter(c, k, who)
            j.parents(c["part"], c["anc"], k, who)
            if name == "bound":
                same(c["part"], j.part[k], "%s: particles", who)
        elif mhips:
            if first:
                expect(not c["past"], "%s: a past at the first index", who)
            else:
                expect(len(c["past"]) == k, "%s: a past of %d steps", who, len(c["past"]))
                for i in range(k):
                    same(c["past"][i], start[i], "%s: past of index %d", who, i)
                same(c["anc"], ar, "%s: trajectories of the past", who)
        else:
            if first:
                expect(not c["past"], "%s: a past at the first index", who)
            else:
                j.past_is_filter(c, k, who)
        if mhips or mhbp:
            if name in ("single", "condpredict"):
                nk = k + 1
                expect((c["next"][:, STEP] == nk).all(), "%s: next states are of index %s", who, c["next"][:, STEP])
                same(c["find"], ar, "%s: next states", who)
                src = start[k] if mhips else j.part[k]
                if mhips:
                    same(c["part"], src, "%s: particles", who)
                else:
                    for row, a, nx in zip(c["part"], c["anc"], c["next"]):
                        i = j.index[k].get(row[UID])
                        expect(i is not None, "%s: not a filter particle of index %d", who, k)
                        expect(k == 0 or j.anc[k][i] == a, "%s: parent %d instead of %d", who, a, j.anc[k][i])
                        if nx[UID] in pair or nx[UID] in j.index[nk]:
                            want = pair.get(nx[UID])
                            if want is None:
                                want = j.anc[nk][j.index[nk][nx[UID]]]
                            expect(i == want, "%s: state paired with parent %d, drawn with %d", who, i, want)
            elif name in ("noise", "update"):
                pass
            else:
                if "part" in c:
                    expect((c["part"][:, STEP] == k).all(), "%s: particles of index %s", who, c["part"][:, STEP])
                if mhbp and not first:
                    if name == "propose":
                        for row, a in zip(c["result"], c["anc"]):
                            pair[row[UID]] = a
                    else:
                        for row, a in zip(c["part"], c["anc"]):
                            want = pair.get(row[UID])
                            if want is None and row[UID] in j.index[k]:
                                want = j.anc[k][j.index[k][row[UID]]]
                            expect(want is not None and want == a, "%s: parent %d for a state drawn with parent %s", who,
                                   a, want)
        if name == "smooth":
            latest[k] = c["result"]
    if case["post"]:
        rec.label("post")
        expect(len(posts) == 1, "%s: finished trajectories are processed %d times", meth, len(posts))
        for k in range(T):
            same(posts[0][k], latest[k], "%s: trajectories handed to post_smoothing at index %d", meth, k)
            latest[k] = latest[k].copy()
            latest[k][:, contract.X] += 1000.0
    for k in range(T):
        same(straj.traj[k].pa.part, latest[k], "%s: result at index %d", meth, k)
    if not (mhips or mhbp):
        # every state of a trajectory is a filter particle (of the right lineage for 'ancestor')
        for k in range(T):
            for row in straj.traj[k].pa.part:
                expect(row[UID] in j.index[k], "%s: state at index %d is not one of the filter's", meth, k)
    need = {"full": {"full"}, "rs": {"full", "bound"}, "rsas": {"full", "bound"}, "mcmc": {"full"}, "ancestor": set(),
            "mhips": {"full", "single", "proposal", "propose", "initial"}, "mhips_reduced": {"full", "noise", "update"},
            "mhbp": {"full", "single", "proposal", "propose", "initial"}}[meth]
    expect(need | {"smooth"} <= names, "%s: the model was only asked for %s", meth, sorted(names))
