"""C07: backward simulation draws trajectories from the filter's backward law."""
import numpy
from hypothesis import strategies as st
from vlib.core import check, expect
from vlib import trace, strat
from vlib.stats import count_pvalue, P_LIMIT, normlog
from vlib.trace import X, UID


def path_model(p, nonmarkov):
    """trace model with a backward density (optionally depending on the whole
    future, on the past lineage and on the data vectors)"""
    model = trace.make_model(p, "markov")
    pure = model.pure
    if not nonmarkov:
        return model

    def full(part, past_trajs, pind, future_trajs, find, ut, yt, tt, cur_ind):
        lp = pure.logtrans(part[:, X], future_trajs[0].pa.part[find][:, X], ut[cur_ind], tt[cur_ind])
        for d in range(1, len(future_trajs)):
            xf = future_trajs[d].pa.part[find][:, X]
            lp = lp - 0.2 / d * (xf - part[:, X]) ** 2
        if len(past_trajs):
            px = past_trajs[-1].pa.part[pind][:, X]
            lp = lp - 0.2 * (px - future_trajs[-1].pa.part[find][:, X]) ** 2 + p["hp"] * numpy.cos(2 * px + 3 * part[:, X])
        return lp

    def bound(part, past_trajs, pind, uvec, yvec, tvec, cur_ind):
        b = pure.height(part[:, X], uvec[cur_ind], tvec[cur_ind])
        if len(past_trajs):
            b = b + p["hp"] * numpy.cos(2 * past_trajs[-1].pa.part[pind][:, X] + 3 * part[:, X])
        return float(numpy.max(b))
    model.logp_xnext_full = full
    model.logp_xnext_max_full = bound
    return model


@st.composite
def case_st(draw, memory=False):
    n = draw(st.integers(3, 5)) if memory else draw(st.integers(1, 3))
    nm = memory or draw(st.booleans())
    p = draw(strat.trace_params())
    p["lik"] = "gauss"
    p["scale"] = draw(strat.oneof(0.05, 0.3))
    p["q"] = draw(strat.oneof(0.5, 1.0, 2.0))
    p["toff"] = draw(strat.oneof(0.0, 0.0, -800.0, -5000.0, 50.0, 2000.0))
    p["hs"] = draw(strat.oneof(0.0, 1.0, 3.0))
    p["hp"] = draw(strat.oneof(6.0, 10.0) if memory else strat.oneof(0.0, 2.0, 6.0))
    if memory:
        return dict(filter=draw(strat.oneof("pf", "apf")), N=draw(st.integers(4, 6)), res=2.0, seed=draw(strat.seeds),
                    pre=draw(st.booleans()), first=0.5, steps=[[draw(strat.num(-3, 3)), draw(strat.num(-3, 3))] for _ in range(n)],
                    split=[False] * n, filter_case=False, par=p, nonmarkov=True, R=draw(strat.oneof(7, 25)),
                    opt=draw(st.booleans()))
    return dict(filter=draw(strat.oneof("pf", "apf")), N=draw(st.integers(2, 4 if nm else 6)),
                res=draw(strat.oneof(0.0, 0.67, 1.0)), seed=draw(strat.seeds), pre=draw(st.booleans()),
                first=draw(st.one_of(st.none(), strat.num())),
                steps=[[draw(strat.num(-12, 12)), draw(st.one_of(st.none(), strat.num()))] for _ in range(n)],
                split=[False] * n, filter_case=False, par=p, nonmarkov=nm,
                R=draw(strat.oneof(1, 2, 3, 7, 25)), opt=draw(st.booleans()))


@st.composite
def few_st(draw):
    return dict(draw(case_st()), M=draw(strat.oneof(1, 2, 3, 4)))


def backward(case, r, k, fut):
    """log-density of the future path `fut` (indices at k+1..T-1) seen from every
    particle at index k"""
    pure = r.pure
    x = r.snaps[k].part[:, X]
    xn = r.snaps[k + 1].part[fut[0], X]
    lp = pure.logtrans(x, xn, r.u[k], k)
    if case["nonmarkov"]:
        for d in range(1, len(fut)):
            lp = lp - 0.2 / d * (r.snaps[k + 1 + d].part[fut[d], X] - x) ** 2
        if k > 0:
            px = r.snaps[k - 1].part[r.snaps[k].anc][:, X]
            lp = lp - 0.2 * (px - r.snaps[k + len(fut)].part[fut[-1], X]) ** 2
            lp = lp + case["par"]["hp"] * numpy.cos(2 * px + 3 * x)
    return lp


def index_paths(r, straj):
    """(T, M) filter particle index of every smoothed particle"""
    T = len(r.snaps)
    out = []
    for k in range(T):
        part = straj[k].pa.part
        order = {u: i for i, u in enumerate(r.snaps[k].part[:, UID])}
        idx = []
        for row in part:
            i = order.get(row[UID])
            expect(i is not None and numpy.array_equal(row, r.snaps[k].part[i]),
                   "smoothed particle at index %d is not one of the filter's particles", k)
            idx.append(i)
        out.append(idx)
    return numpy.array(out)


def run(case, rec, method, M, reps=1):
    base = case
    case = dict(case)
    # trace.run builds the model itself; give the backward density to it
    r = trace.run(base)
    if case["nonmarkov"]:
        other = path_model(case["par"], True)
        r.model.logp_xnext_full = other.logp_xnext_full
        r.model.logp_xnext_max_full = other.logp_xnext_max_full
    N, T = case["N"], len(r.snaps)
    opts = None
    if method in ("rs", "mcmc"):
        opts = {"R": case["R"]}
    if method == "rsas" and case["opt"]:
        opts = {"ratio": 0.1, "sv": 0.5, "sw": 2.0, "x1": 0.9, "P1": 0.5}
    w = numpy.exp(normlog(r.snaps[-1].w))
    paths = []
    for _ in range(reps):
        straj = r.pt.perform_smoothing(M, method=method, smoother_options=opts)
        expect(len(straj) == T and straj.get_smoothed_estimates().shape == (T, M, trace.WIDTH),
               "shape of the smoothed estimates")
        paths.append(index_paths(r, straj.traj))
        cnt = numpy.bincount(paths[-1][-1], minlength=N)
        expect(numpy.all(cnt >= numpy.floor(M * w - 1e-6)) and numpy.all(cnt <= numpy.ceil(M * w + 1e-6)),
               "%s: final states drawn %s times with weights %s", method, cnt.tolist(), w.tolist())
    paths = numpy.hstack(paths)
    tested = 0
    for k in reversed(range(T - 1)):
        key = paths[k + 1:] if case["nonmarkov"] else paths[k + 1:k + 2]
        groups, inv = numpy.unique(key, axis=1, return_inverse=True)
        inv = numpy.asarray(inv).reshape(-1)
        for g in range(groups.shape[1]):
            sel = paths[k][inv == g]
            fut = groups[:, g]
            lw = normlog(r.snaps[k].w)
            lb = backward(case, r, k, fut)
            law = numpy.exp(normlog(lw + lb))
            if method == "mcmc":
                q = numpy.exp(lw)
                acc = numpy.minimum(1.0, numpy.exp(numpy.minimum(0, lb[None, :] - lb[:, None])))
                K = q[None, :] * acc
                K[numpy.arange(N), numpy.arange(N)] += 1.0 - K.sum(axis=1)
                law = numpy.maximum(numpy.linalg.matrix_power(K, case["R"])[r.snaps[k + 1].anc[fut[0]]], 0)
            cnt = numpy.bincount(sel, minlength=N)
            pv, i = count_pvalue(cnt, law)
            expect(pv > P_LIMIT,
                   "%s: given the future path %s at index %d, particles were drawn %s times; expected law %s (p=%g)",
                   method, fut.tolist(), k, cnt.tolist(), numpy.round(law, 5).tolist(), pv)
            if len(sel) >= 50 and 0.02 < law.max() < 0.98:
                tested += 1
    rec.nontrivial = tested > 0
    rec.label("nonmarkov" if case["nonmarkov"] else "markov")


@st.composite
def long_st(draw, method=""):
    c = draw(case_st())
    # (time stamps and stored values repeat after a while: inputs and measurements are drawn for every step)
    n = draw(strat.oneof(5, 9, 14, 22))
    if c["nonmarkov"]:
        c["par"]["hp"] = min(c["par"]["hp"], 2.0)
    c["N"] = draw(strat.oneof(8, 17, 33, 70))
    r = numpy.random.RandomState(c["seed"])
    c["steps"] = [[round(float(r.uniform(-3, 3)), 3), None if r.rand() < 0.2 else round(float(r.uniform(-3, 3)), 3)] for _ in range(n)]
    c["split"] = [False] * n
    c["par"]["toff"] = draw(strat.oneof(0.0, 0.0, -5000.0, 2000.0))
    c["M"] = draw(strat.oneof(40, 150, 400))
    c["R"] = draw(strat.oneof(1, 2, 5))
    return c


def bernstein(S, V):
    """bound of the probability that a sum of martingale differences of size up
    to one with variances adding up to V is at least |S|"""
    S = abs(S)
    return 2 * numpy.exp(-S * S / (2 * (V + S / 3.0 + 1e-300)))


def long_run(case, rec, method):
    """Longer runs with more particles: given its future every drawn particle
    follows the backward law, so the counts minus their expectations are martingales."""
    r = trace.run(dict(case))
    if case["nonmarkov"]:
        other = path_model(case["par"], True)
        r.model.logp_xnext_full = other.logp_xnext_full
        r.model.logp_xnext_max_full = other.logp_xnext_max_full
    N, T, M = case["N"], len(r.snaps), case["M"]
    opts = {"R": case["R"]} if method in ("rs", "mcmc") else None
    straj = r.pt.perform_smoothing(M, method=method, smoother_options=opts)
    paths = index_paths(r, straj.traj)
    rec.label("nonmarkov" if case["nonmarkov"] else "markov")
    total = 0.0
    for k in reversed(range(T - 1)):
        lw = normlog(r.snaps[k].w)
        S, V = numpy.zeros(N), numpy.zeros(N)
        key = paths[k + 1:] if case["nonmarkov"] else paths[k + 1:k + 2]
        groups, inv = numpy.unique(key, axis=1, return_inverse=True)
        inv = numpy.asarray(inv).reshape(-1)
        for g in range(groups.shape[1]):
            lb = backward(case, r, k, groups[:, g])
            law = numpy.exp(normlog(lw + lb))
            if method == "mcmc":
                q = numpy.exp(lw)
                acc = numpy.minimum(1.0, numpy.exp(numpy.minimum(0, lb[None, :] - lb[:, None])))
                K = q[None, :] * acc
                K[numpy.arange(N), numpy.arange(N)] += 1.0 - K.sum(axis=1)
                law = numpy.maximum(numpy.linalg.matrix_power(K, case["R"])[r.snaps[k + 1].anc[groups[0, g]]], 0)
            sel = paths[k][inv == g]
            S += numpy.bincount(sel, minlength=N) - len(sel) * law
            V += len(sel) * law * (1 - law)
        pv = bernstein(S, V)
        i = int(numpy.argmin(pv))
        expect(pv[i] > 1e-12, "%s: particle %d of %d at index %d was drawn %.1f times more than expected by %d trajectories (variance %.1f)",
               method, i, N, k, S[i], M, V[i])
        # lower and higher states, earlier and later particles
        for what, order in (("larger states", r.snaps[k].part[:, X]), ("later particles", numpy.arange(N))):
            o = numpy.argsort(order, kind="stable")[N // 2:]
            pv = bernstein(S[o].sum(), min(V.sum(), M / 4.0))
            expect(pv > 1e-12, "%s: at index %d of %d the %s were drawn %.1f times more than expected by %d trajectories",
                   method, k, T, what, S[o].sum(), M)
        total += V.sum()
    rec.nontrivial = total > 100


def _register():
    for method, M, q in (("full", 1200, 14), ("rs", 2500, 30), ("rsas", 2500, 30), ("mcmc", 2500, 40)):
        def fn(case, rec, method=method, M=M):
            run(case, rec, method, M)
        fn.__name__ = "law_" + method
        check("C07", case_st, quick=q, thorough=q * 20, shards=2,
              rule="some conditional law with at least 50 draws is not degenerate")(fn)
    for method in ("rs", "rsas"):
        def fn(case, rec, method=method):
            run(case, rec, method, 1200)
        fn.__name__ = "resampled_lineages_" + method
        check("C07", lambda: case_st(memory=True), quick=40, thorough=600, shards=2,
              rule="some conditional law with at least 50 draws is not degenerate")(fn)
    for method in ("full", "rs", "rsas", "mcmc"):
        def fn(case, rec, method=method):
            long_run(case, rec, method)
        fn.__name__ = "long_runs_" + method
        check("C07", long_st, quick=30, thorough=500, shards=1,
              rule="the backward draws were not (nearly) determined")(fn)
    # few trajectories at a time: the ends of the vectorised loops
    for method in ("rs", "rsas", "mcmc"):
        def fn(case, rec, method=method):
            run(case, rec, method, case["M"], reps=1500 // case["M"])
        fn.__name__ = "few_trajectories_" + method
        check("C07", few_st, quick=16, thorough=200, shards=2,
              rule="some conditional law with at least 50 draws is not degenerate")(fn)


_register()
