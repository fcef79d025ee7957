"""C04: conditional filters retain the conditional trajectory and draw its
ancestors (ancestor sampling) with the right probabilities."""
import numpy
from hypothesis import strategies as st
from vlib.core import check, expect
from vlib import trace, strat, discrete
from vlib.stats import counts_ok, normlog


@st.composite
def retained_case(draw):
    c = draw(strat.trace_case(trace.CONDITIONAL, max_steps=7))
    c["others"] = draw(strat.oneof(0, 0, 1, 3))
    return c


@check("C04", retained_case, quick=700, thorough=10000,
       rule="at least three time indices", need=trace.CONDITIONAL)
def retained(case, rec):
    r = trace.run(case)
    rec.label(case["filter"])
    rec.nontrivial = len(r.snaps) >= 3
    N = case["N"]
    for k, s in enumerate(r.snaps):
        want = r.ctraj[k].pa.part[0]
        expect(numpy.array_equal(s.part[-1], want),
               "%s: the retained particle at index %d is %s instead of %s", case["filter"], k,
               s.part[-1].tolist(), want.tolist())
        if case["filter"] == "cpf":
            expect(s.anc[-1] == N - 1, "cpf: the ancestor of the retained particle is %d", s.anc[-1])
        for i in range(N - 1):
            expect(s.part[i, trace.UID] > 0, "%s: the retained state appears more than once", case["filter"])
    # the conditional trajectory itself is not touched
    rng = numpy.random.RandomState(case["seed"])
    rng.randint(2 ** 31 - 1)
    fresh = trace.cond_traj(rng, len(case["steps"]) + 1, case["others"] if case["filter"] != "cpfyas" else 0)
    for k in range(len(fresh)):
        expect(numpy.array_equal(fresh[k].pa.part, r.ctraj[k].pa.part), "conditional trajectory modified")


@st.composite
def long_case(draw):
    filt = draw(strat.oneof("cpfas", "cpfyas", "csiras"))
    par = draw(strat.trace_params())
    par["lik"] = "gauss"
    par["scale"] = draw(strat.oneof(0.05, 0.2))
    par["q"] = draw(strat.oneof(0.5, 1.0, 2.0))
    par["a"] = draw(strat.num(-6, 6))
    return dict(filter=filt, N=draw(st.integers(2, 6)), par=par, seed=draw(strat.seeds),
                others=draw(strat.oneof(0, 2)))


@check("C04", long_case, quick=14, thorough=150, shards=2,
       rule="the ancestor probabilities are not degenerate (enough variance to test)",
       need=("tested",))
def ancestor_sampling_law(case, rec):
    """Over a long history the ancestor drawn for the retained state follows
    weight times transition density into the retained state."""
    n = 500
    rng = numpy.random.RandomState(case["seed"])
    steps = [[float(rng.randint(-8, 9)) / 8, float(rng.randint(-8, 9)) / 8] for _ in range(n)]
    full = dict(case, res=0.5, pre=True, first=None, steps=steps, split=[False] * n, filter_case=False)
    r = trace.run(full)
    N = case["N"]
    hits, prob, var = numpy.zeros(N), numpy.zeros(N), numpy.zeros(N)
    hit2 = numpy.zeros(N)
    prob2, var2 = numpy.zeros(N), numpy.zeros(N)
    for k in range(1, len(r.snaps)):
        p, s = r.snaps[k - 1], r.snaps[k]
        lw = normlog(normlog(p.w) + r.pure.logtrans(p.part[:, trace.X], r.ctraj[k].pa.part[0, trace.X],
                                                    r.u[k - 1], k - 1))
        pr = numpy.exp(lw)
        prob += pr
        var += pr * (1 - pr)
        hits[s.anc[-1]] += 1
        rank = numpy.argsort(numpy.argsort(-pr))      # slots by falling probability
        hit2[rank[s.anc[-1]]] += 1
        q = numpy.sort(pr)[::-1]
        prob2 += q
        var2 += q * (1 - q)
    for h, m, v in ((hits, prob, var), (hit2, prob2, var2)):
        use = v > 15
        if use.any():
            rec.label("tested")
            rec.nontrivial = True
        z = numpy.abs(h - m)[use] / numpy.sqrt(v[use])
        expect(not use.any() or z.max() < 8.0,
               "%s: ancestor of the retained particle drawn %s times, expected %s", case["filter"],
               h.tolist(), m.tolist())


@st.composite
def invariance_case(draw):
    return dict(model=draw(discrete.model_case(Ks=(2, 3))),
                data=draw(discrete.data_case(1, 2)), seed=draw(strat.seeds))


def kernel_keeps_posterior(case, rec, filt):
    """With two particles (where resampling is one independent draw) running
    the conditional filter on an exact posterior trajectory and drawing a new
    trajectory from it gives a trajectory with the same law."""
    from pyparticleest.filter import TrajectoryStep, ParticleApproximation
    data = dict(case["data"])
    data["y"] = [0.5 if (y is None and filt in ("cpfyas", "csiras")) else y for y in data["y"]]
    if filt == "cpfyas" and data["first"] is None:
        data["first"] = 0.25
    model = discrete.make_model(case["model"], "sir" if filt == "csiras" else "markov")
    h = model.hmm
    seqs, p = discrete.posterior(h, data, target="y" if filt == "cpfyas" else "lik")
    rec.nontrivial = numpy.max(p) < 0.95
    rng = numpy.random.RandomState(case["seed"])
    numpy.random.seed(rng.randint(2 ** 31 - 1))
    R = 1200
    start = rng.choice(len(seqs), size=R, p=p)
    T = seqs.shape[1]
    out = numpy.zeros(len(seqs), dtype=int)
    for i in start:
        ctraj = numpy.empty(T, dtype=object)
        for t in range(T):
            ctraj[t] = TrajectoryStep(ParticleApproximation(numpy.array([[float(seqs[i, t])]])))
        pt = discrete.run_filter(model, data, 2, filt, 0.5, {"cond_traj": ctraj})
        x = discrete.states(pt.perform_smoothing(1, method="ancestor").traj)
        out[discrete.seq_code(x.T, h.K)[0]] += 1
    expect(counts_ok(out, p), "%s: trajectories drawn %s times, posterior probabilities %s", filt,
           out.tolist(), numpy.round(p, 4).tolist())


def _register(filt):
    def fn(case, rec):
        kernel_keeps_posterior(case, rec, filt)
    fn.__name__ = "two_particle_kernel_" + filt
    check("C04", invariance_case, quick=12, thorough=150,
          rule="posterior over trajectories is not degenerate")(fn)


for _f in trace.CONDITIONAL:
    _register(_f)
