"""C10: the Metropolis-Hastings backward proposer samples each state from
filter-at-(t-1) x transition x measurement x transition to the next state."""
import numpy
from hypothesis import strategies as st
from vlib.core import check, expect
from vlib import strat, discrete
from vlib.stats import count_pvalue, P_LIMIT, normlog

M = 2500


@st.composite
def case_st(draw):
    return dict(model=draw(discrete.model_case(Ks=(2, 3), spread=6, memory=True)), data=draw(discrete.data_case(1, 3)),
                seed=draw(strat.seeds), N=draw(strat.oneof(2, 3, 4)), pre=draw(st.booleans()),
                res=draw(strat.oneof(0.0, 0.67, 1.0)), filt=draw(strat.oneof("pf", "apf")))


def site(h, data, t, w, ps, nxt):
    """Exact target over (ancestor particle, state) at index t and the mixing of
    the independence chain in it: (log target over states, steps needed)."""
    u, y = data["u"], [data["first"]] + list(data["y"])
    K = h.K
    lik = h.loglik(y[t], t) if y[t] is not None else numpy.zeros(K)
    fut = (h.logP(u[t], t) + h.pair(y[t + 1], t + 1))[:, nxt] if nxt is not None else numpy.zeros(K)
    na = numpy.array([nxt]) if nxt is not None else None
    if t == 0:
        lt = (h.logpi() + lik + fut)[None, :]
        lq = h.logqsmooth(None, na, y[t], t)
    else:
        tr = (h.logP(u[t - 1], t - 1) + h.pair(y[t], t))[ps]
        lw = normlog(w)[:, None]
        lt = lw + tr + (lik + fut)[None, :]
        lq = lw + numpy.array([h.logqsmooth(numpy.array([s]), na, y[t], t)[0] for s in ps])
    lt = normlog(lt.ravel())
    # independence sampler: spectral gap is 1/max(target/proposal)
    ratio = numpy.exp(numpy.max(lt - normlog(lq.ravel())))
    steps = numpy.log(1e4) * ratio
    law = numpy.exp(lt).reshape(-1, K).sum(axis=0)
    return law, steps


@check("C10", case_st, quick=40, thorough=400, shards=4, need=("tested", "memory"),
       rule="some conditional law with at least 50 draws is not degenerate")
def law_mhbp(case, rec):
    model = discrete.make_model(case["model"])
    h, data = model.hmm, case["data"]
    numpy.random.seed(case["seed"])
    pt = discrete.run_filter(model, data, case["N"], case["filt"], case["res"], pre=case["pre"])
    T = len(pt)
    ps = discrete.states(pt.traj)
    ws = [pt[t].pa.w.copy() for t in range(T)]
    laws, need = {}, 1.0
    for t in range(T):
        for nxt in ([None] if t == T - 1 else range(h.K)):
            law, steps = site(h, data, t, ws[t - 1] if t else None, ps[t - 1] if t else None, nxt)
            laws[t, nxt] = law
            need = max(need, steps)
    if need > 150:
        rec.label("slow")
        return
    R = int(numpy.ceil(need))
    straj = pt.perform_smoothing(M, method="mhbp", smoother_options={"R": R})
    x = discrete.states(straj.traj)
    expect(x.shape == (T, M), "smoothed trajectories of shape %s", x.shape)
    rec.label("tested", "missing" if None in data["y"] else None, "T%d" % T,
              "memory" if h.D is not None else None)
    for t in range(T):
        for nxt in ([None] if t == T - 1 else range(h.K)):
            sel = x[t] if nxt is None else x[t][x[t + 1] == nxt]
            cnt = numpy.bincount(sel, minlength=h.K)
            law = laws[t, nxt]
            # allow for the remaining distance of the chain
            pv, i = count_pvalue(cnt, law)
            expect(pv > P_LIMIT,
                   "mhbp (R=%d): index %d, next state %s: states drawn %s times, law %s", R, t, nxt, cnt.tolist(),
                   numpy.round(law, 5).tolist())
            if len(sel) > 50 and law.max() < 0.97:
                rec.nontrivial = True
