"""C09: MHIPS (full and reduced) samples trajectories from the smoothing law."""
import numpy
from hypothesis import strategies as st
from vlib.core import check, expect
from vlib import strat, discrete
from vlib.stats import count_pvalue, P_LIMIT

M = 2500


def kernel(h, data, seqs, reduced):
    """Transition matrix of one reverse-time sweep of single-site
    Metropolis-Hastings; only used to know how many sweeps are enough."""
    n, T = seqs.shape
    K = h.K
    u, y = data["u"], [data["first"]] + list(data["y"])
    code = {tuple(s): i for i, s in enumerate(seqs)}
    P = numpy.eye(n)
    for t in reversed(range(T)):
        S = numpy.zeros((n, n))
        for i, s in enumerate(seqs):
            prev = None if t == 0 else numpy.array([s[t - 1]])
            nxt = None if t == T - 1 else numpy.array([s[t + 1]])
            prior = h.logpi() if t == 0 else h.logP(u[t - 1], t - 1)[s[t - 1]]
            target = prior.copy()
            if y[t] is not None:
                target = target + h.loglik(y[t], t)
            if t > 0:
                target = target + h.pair(y[t], t)[s[t - 1]]
            if nxt is not None:
                target = target + (h.logP(u[t], t) + h.pair(y[t + 1], t + 1))[:, s[t + 1]]
            q = prior if reduced else h.logqsmooth(prev, nxt, y[t], t)[0]
            for k in range(K):
                a = min(1.0, numpy.exp(min(0.0, target[k] - target[s[t]] + q[s[t]] - q[k])))
                j = list(s)
                j[t] = k
                S[i, code[tuple(j)]] += numpy.exp(q[k]) * a
            S[i, i] += 1.0 - S[i].sum()
        P = P @ S
    return P


@st.composite
def case_st(draw):
    return dict(model=draw(discrete.model_case(Ks=(2, 2, 3), spread=6, memory=True)), data=draw(discrete.data_case(1, 3)),
                seed=draw(strat.seeds), N=draw(strat.oneof(3, 20)), pre=draw(st.booleans()))


def run(case, rec, method):
    model = discrete.make_model(case["model"])
    h, data = model.hmm, case["data"]
    seqs, p = discrete.posterior(h, data)
    Pm = kernel(h, data, seqs, method == "mhips_reduced")
    R, Q = 1, Pm
    while R < 128:
        tv = 0.5 * numpy.abs(Q - p[None, :]).sum(axis=1).max()
        if tv < 2e-4:
            break
        Q = Q @ Q
        R *= 2
    else:
        rec.label("slow")      # mixes too slowly for an exact comparison
        return
    numpy.random.seed(case["seed"])
    pt = discrete.run_filter(model, data, case["N"], "pf", 0.67, pre=case["pre"])
    # the default number of passes is at least 10
    default = R <= 8 and case["seed"] % 3 == 0
    straj = pt.perform_smoothing(M, method=method, smoother_options=None if default else {"R": R})
    rec.label("default" if default else None)
    x = discrete.states(straj.traj)
    expect(x.shape == (seqs.shape[1], M), "smoothed trajectories of shape %s", x.shape)
    cnt = numpy.bincount(discrete.seq_code(x.T, h.K), minlength=len(seqs))
    pv, i = count_pvalue(cnt, p)
    rec.nontrivial = p.max() < 0.9
    rec.label("tested", "T%d" % seqs.shape[1], "missing" if None in data["y"] else None,
              "memory" if h.D is not None else None)
    expect(pv > P_LIMIT, "%s: after %d passes trajectory %s was drawn %d of %d times, smoothing probability %.5f",
           method, R, seqs[i].tolist(), cnt[i], M, p[i])


def _register():
    for m in ("mhips", "mhips_reduced"):
        def fn(case, rec, m=m):
            run(case, rec, m)
        fn.__name__ = "law_" + m
        check("C09", case_st, quick=30, thorough=400, shards=3, need=("tested",),
              rule="the smoothing law has no almost certain trajectory and the chain mixes within 128 passes")(fn)


_register()


@st.composite
def zero_case(draw):
    c = draw(case_st())
    if c["model"]["K"] == 2:
        c["data"] = draw(discrete.data_case(3, 5))
    c["R"] = draw(st.integers(0, 3))
    c["reduced"] = draw(st.booleans())
    return c


@check("C09", zero_case, quick=120, shards=2, thorough=400, rule="at least one pass and more than one trajectory possible")
def few_passes_follow_the_chain(case, rec):
    """After a small number R of passes the law is the law of the filter's
    lineages moved R times by a kernel that keeps the smoothing law: starting
    from exact posterior lineages it is still the posterior.  Using a filter
    of many particles, the start is within Monte Carlo error of the posterior,
    and so must be the result."""
    model = discrete.make_model(case["model"])
    h, data = model.hmm, case["data"]
    seqs, p = discrete.posterior(h, data)
    numpy.random.seed(case["seed"])
    pt = discrete.run_filter(model, data, 20000, "pf", 0.0)
    method = "mhips_reduced" if case["reduced"] else "mhips"
    straj = pt.perform_smoothing(20000, method=method, smoother_options={"R": case["R"]})
    x = discrete.states(straj.traj)
    cnt = numpy.bincount(discrete.seq_code(x.T, h.K), minlength=len(seqs)) / 20000.0
    rec.nontrivial = case["R"] > 0 and p.max() < 0.95
    # importance sampling error of the start: effective sample size
    w = numpy.exp(pt[-1].pa.w - pt[-1].pa.w.max())
    ess = w.sum() ** 2 / (w ** 2).sum()
    if ess < 500:
        rec.nontrivial = False
        return
    tol = 8 * numpy.sqrt(p * (1 - p) / ess + p / 20000.0) + 10.0 / ess
    bad = numpy.abs(cnt - p) > tol
    expect(not bad.any(), "%s, R=%d: trajectory frequencies %s, smoothing law %s", method, case["R"],
           numpy.round(cnt, 4).tolist(), numpy.round(p, 4).tolist())
