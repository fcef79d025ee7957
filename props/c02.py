"""C02: resampling and the particle approximation container."""
import numpy
from hypothesis import strategies as st
from vlib.core import check, expect
from vlib import trace, strat
from vlib.stats import counts_ok, normlog


def close_counts(cnt, expected):
    return numpy.all(cnt >= numpy.floor(expected - 1e-7)) and numpy.all(cnt <= numpy.ceil(expected + 1e-7))


@check("C02", strat.trace_case(("pf", "apf", "sir", "pfy", "cpf", "cpfas", "cpfyas", "csiras")), quick=900, shards=2,
       thorough=12000,
       rule="a resampling decision with unequal weights was made",
       need=("resampled", "kept", "apf-first-stage"))
def filter_resampling(case, rec):
    r = trace.run(case)
    N = case["N"]
    for k in range(1, len(r.snaps)):
        s = r.snaps[k]
        if case["filter"] in trace.CONDITIONAL:
            expect(bool(r.returned[k]), "conditional filters resample at every step")
            w = numpy.exp(trace.logw_before(r, k - 1))
            cnt = numpy.bincount(s.anc[:-1], minlength=N)
            expect(close_counts(cnt, w * (N - 1)),
                   "ancestor counts %s, expected number %s", cnt.tolist(), (w * (N - 1)).tolist())
            continue
        lw = trace.trigger_weights(r, k)
        ne = trace.neff(lw)
        thr = case["res"] * N
        if abs(ne - thr) > 1e-7 * N:
            want = ne < thr
            expect(trace.resampled(r, k) == want,
                   "%s step %d: %d effective particles (%g), threshold %g: resampled=%s", case["filter"], k,
                   round(ne), ne, thr, r.returned[k])
        if trace.resampled(r, k):
            rec.label("resampled")
            if case["filter"] == "apf" and r.y[k] is not None and not case["split"][k - 1]:
                rec.label("apf-first-stage")
            w = numpy.exp(lw)
            cnt = numpy.bincount(s.anc, minlength=N)
            expect(len(s.anc) == N, "%d ancestors for %d particles", len(s.anc), N)
            expect(close_counts(cnt, w * N),
                   "%s: ancestor counts %s, expected numbers %s", case["filter"], cnt.tolist(), (w * N).tolist())
            rec.nontrivial = True
        else:
            rec.label("kept")
            expect(numpy.array_equal(s.anc, numpy.arange(N)),
                   "not resampled, but the ancestors are %s", s.anc.tolist())
            if numpy.ptp(numpy.exp(lw)) > 1e-6:
                rec.nontrivial = True


@st.composite
def sim_case(draw):
    c = draw(strat.trace_case(("pf", "apf", "sir"), min_steps=1, max_steps=6))
    c["split"] = [False] * len(c["steps"])
    return c


@check("C02", sim_case, quick=250, thorough=4000, rule="at least one and not all steps resampled",
       need=("some",))
def reported_number_of_resamplings(case, rec):
    from pyparticleest.simulator import Simulator
    if case["par"]["lik"] == "cut":
        case = dict(case, par=dict(case["par"], lik="gauss"))
    model = trace.make_model(case["par"], trace.KIND.get(case["filter"], "markov"))
    numpy.random.seed(case["seed"])
    y = [s[1] for s in case["steps"]]
    u = [s[0] for s in case["steps"]]
    y = [None if a is None else numpy.asarray(a, dtype=float) for a in y]
    u = [None if a is None else numpy.asarray(a, dtype=float) for a in u]
    mf = case["first"] is not None
    if mf:
        y = [numpy.asarray(case["first"], dtype=float)] + y
    sim = Simulator(model, u + [None], y)
    n = sim.simulate(case["N"], 0, filter=case["filter"], smoother=None, res=case["res"], meas_first=mf)
    pt = sim.pt
    count = 0
    sure = True
    for k in range(1, len(pt)):
        prev = normlog(pt[k - 1].pa.w)
        yk = y[k] if mf else y[k - 1]
        if case["filter"] == "apf" and yk is not None:
            prev = normlog(prev + model.pure.first_stage(pt[k - 1].pa.part[:, 0], u[k - 1], yk, k - 1))
        ne = trace.neff(prev)
        if abs(ne - case["res"] * case["N"]) <= 1e-7 * case["N"]:
            sure = False
        count += bool(ne < case["res"] * case["N"])
    if sure:
        expect(n == count, "simulate() reported %s resamplings, %d took place", n, count)
        rec.nontrivial = 0 < count < len(pt) - 1
        rec.label("some" if rec.nontrivial else None)


weights_st = st.lists(st.integers(0, 12), min_size=1, max_size=9).filter(lambda l: sum(l) > 0)


@st.composite
def approx_case(draw):
    w = draw(weights_st)
    return dict(w=w, off=draw(strat.oneof(0.0, 0.0, 5.0, -5.0, 300.0, -600.0, -5000.0)),
                n=draw(st.one_of(st.none(), st.integers(1, 30))), seed=draw(strat.seeds),
                best=draw(st.integers(1, len(w))), width=draw(st.integers(1, 3)),
                scale=draw(strat.oneof(1.0, 0.5, 7.0)),
                # many more particles, each of small weight compared to the ones above
                tail=draw(strat.oneof(0, 0, 0, 50, 700, 3000)), light=draw(strat.oneof(1e-1, 1e-3, 1e-4, 1e-6)))


def expand(case):
    if case.get("tail"):
        rng = numpy.random.RandomState(case["seed"] // 3)
        light = case["light"] * rng.uniform(0.5, 1.5, case["tail"])
        w = numpy.concatenate((numpy.array(case["w"], dtype=float), light))
        case = dict(case, w=w[rng.permutation(len(w))].tolist())
    return case


class CopyModel(object):
    def __init__(self):
        import pyparticleest.interfaces as I
        self.base = I.SIR()

    def copy_ind(self, particles, new_ind=None):
        return self.base.copy_ind(particles, new_ind)


def build(case):
    from pyparticleest.filter import ParticleApproximation
    w = numpy.array(case["w"], dtype=float)
    with numpy.errstate(divide="ignore"):
        lw = numpy.log(w) + case["off"]
    part = numpy.arange(len(w) * case["width"], dtype=float).reshape(len(w), case["width"]) + 0.25
    return ParticleApproximation(part, lw), part, lw, w / w.sum()


@check("C02", approx_case, quick=1200, thorough=20000, rule="unequal weights",
       need=("zero-weight", "new-size", "same-size", "many"))
def approximation_resample(case, rec):
    case = expand(case)
    numpy.random.seed(case["seed"])
    pa, part, lw, p = build(case)
    N = len(p)
    expect(len(pa) == N and pa.num == N, "size")
    n = case["n"]
    ind = pa.resample(CopyModel(), n) if n is not None else pa.resample(CopyModel())
    m = N if n is None else n
    rec.label("zero-weight" if numpy.any(p == 0) else None, "same-size" if n is None else "new-size")
    rec.nontrivial = numpy.ptp(p) > 0
    rec.label("many" if case.get("tail") else None)
    ind = numpy.asarray(ind)
    expect(ind.shape == (m,), "%s indices for %d particles", ind.shape, m)
    expect(numpy.array_equal(pa.part, part[ind]), "particles are not those of the returned indices")
    expect(len(pa) == m and pa.num == m and len(pa.w) == m, "size after resampling to %d", m)
    expect(numpy.allclose(pa.w, -numpy.log(m), atol=1e-12), "weights after resampling: %s", pa.w.tolist())
    cnt = numpy.bincount(ind, minlength=N)
    expect(close_counts(cnt, m * p), "counts %s for expected numbers %s", cnt.tolist(), (m * p).tolist())
    expect(not numpy.any(cnt[p == 0]), "a particle of zero weight was selected")
    old = part.copy()
    pa.part[:] = -1
    expect(numpy.array_equal(part, old), "the particles handed over were modified")


@check("C02", approx_case, quick=1200, thorough=20000, rule="unequal weights", need=("zero-weight", "ties", "many"))
def approximation_queries(case, rec):
    case = expand(case)
    pa, part, lw, p = build(case)
    N = len(p)
    rec.nontrivial = numpy.ptp(p) > 0
    rec.label("zero-weight" if numpy.any(p == 0) else None, "ties" if len(set(case["w"])) < N else None)
    rec.label("many" if case.get("tail") else None)
    ne = pa.calc_Neff()
    want = 1.0 / numpy.sum(p ** 2)
    expect(abs(ne - want) < 1e-9 * want, "calc_Neff gives %r, 1/sum(w^2) is %r", ne, want)
    best = numpy.asarray(pa.find_best_particles(case["best"]))
    expect(best.shape == (case["best"],) and len(set(best.tolist())) == case["best"], "shape %s", best.shape)
    got = [case["w"][i] for i in best]
    expect(got == sorted(case["w"], reverse=True)[:case["best"]],
           "find_best_particles(%d) returned particles of weight %s out of %s", case["best"], got, case["w"])
    one = pa.find_best_particles()
    expect(len(one) == 1 and case["w"][int(one[0])] == max(case["w"]), "find_best_particles() of %s", case["w"])
    # queries change nothing; the container owns copies
    expect(numpy.array_equal(pa.w, lw) and numpy.array_equal(pa.part, part), "a query changed the approximation")
    keep = lw.copy()
    pa.w += 1.0
    pa.part += 1.0
    expect(numpy.array_equal(lw, keep) and part.ravel()[0] == 0.25, "the arrays handed over are aliased")
    from pyparticleest.filter import ParticleApproximation
    q = ParticleApproximation(part)
    expect(numpy.allclose(q.w, -numpy.log(N)), "default weights %s", q.w)
    q = ParticleApproximation(seed=1.5, num=N)
    expect(len(q) == N and numpy.all(q.part == 1.5) and numpy.allclose(q.w, -numpy.log(N)), "seeded approximation")


@st.composite
def law_case(draw):
    w = draw(st.lists(st.integers(0, 8), min_size=2, max_size=6).filter(lambda l: sum(l) > 0))
    return dict(w=w, off=draw(strat.oneof(0.0, 3.0, -50.0)), width=1, seed=draw(strat.seeds),
                n=draw(st.integers(1, 7)))


@check("C02", law_case, quick=40, thorough=400, rule="at least two particles of different positive weight")
def sampling_law(case, rec):
    """Every particle is drawn with probability proportional to its weight:
    single draws, draws of n, and resampling."""
    from pyparticleest.filter import sample
    numpy.random.seed(case["seed"])
    pa, part, lw, p = build(case)
    rec.nontrivial = len(set(case["w"]) - {0}) > 1
    N = len(p)
    R = 3000
    cnt = numpy.zeros(N, dtype=int)
    for _ in range(R):
        cnt[int(round((pa.sample()[0] - 0.25)))] += 1
    expect(counts_ok(cnt, p), "ParticleApproximation.sample(): counts %s, weights %s", cnt.tolist(), p.tolist())
    w = numpy.array(case["w"], dtype=float) * 0.37
    keep = w.copy()
    cnt = numpy.zeros(N, dtype=int)
    cn = numpy.zeros(N, dtype=float)
    for _ in range(R):
        cnt[int(sample(w, 1)[0])] += 1
        c = numpy.bincount(sample(w, case["n"]), minlength=N)
        expect(close_counts(c, case["n"] * p), "sample(w, %d): counts %s for weights %s", case["n"],
               c.tolist(), p.tolist())
        cn += c
    expect(numpy.array_equal(w, keep), "sample() modified the weights")
    expect(counts_ok(cnt, p), "sample(w, 1): counts %s, weights %s", cnt.tolist(), p.tolist())
    # n draws: each count is floor or ceil of its mean, so its variance is f(1-f)
    mean = case["n"] * p
    f = mean - numpy.floor(mean)
    sd = numpy.sqrt(R * numpy.maximum(f * (1 - f), 1e-4))
    expect(numpy.all(numpy.abs(cn - R * mean) < 8 * sd + 8), "sample(w, %d): mean counts %s, expected %s",
           case["n"], (cn / R).tolist(), mean.tolist())
