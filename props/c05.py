"""C05: bookkeeping of ParticleTrajectory and Simulator over call histories."""
import numpy
from hypothesis import strategies as st
from vlib.core import check, expect
from vlib import trace, strat, runs
from vlib.trace import _num


@st.composite
def history_case(draw):
    """A history of calls: measure?, then forward(u, y|None) [measure] ..."""
    c = draw(strat.trace_case(("pf", "apf"), min_steps=1, max_steps=9, Ns=[1, 2, 4, 8]))
    c["par"]["lik"] = "gauss"
    c["extra"] = draw(st.integers(0, 3))
    c["kind"] = draw(strat.oneof("scalar", "int", "float", "array"))
    c["smooth"] = [draw(strat.oneof(None, "ancestor", "full")) for _ in c["steps"]]
    return c


def conv(v, kind):
    if v is None:
        return None
    if isinstance(v, list):
        return numpy.asarray(v, dtype=float)
    if kind == "int":
        return int(round(v))
    if kind == "array":
        return numpy.asarray([[v]])
    return float(v)


@check("C05", history_case, quick=600, thorough=10000, shards=2,
       rule="history of at least three calls", need=("pre", "grow", "first", "split", "missing"))
def call_history(case, rec):
    from pyparticleest.filter import ParticleTrajectory
    model = trace.make_model(case["par"], "markov")
    numpy.random.seed(case["seed"])
    n = len(case["steps"])
    kw = {"T": n + 1 + case["extra"]} if case["pre"] else {}
    pt = ParticleTrajectory(model, case["N"], case["res"], filter=case["filter"], **kw)
    rec.label("pre" if case["pre"] else "grow", "first" if case["first"] is not None else None)
    expect(len(pt) == 0, "a new trajectory has %d steps", len(pt))
    us, ys = [], [None]
    calls = 0

    def same(a, b):
        if a is None or b is None:
            return a is None and b is None
        return type(a) is type(b) and numpy.array_equal(numpy.asarray(a), numpy.asarray(b)) and \
            numpy.shape(a) == numpy.shape(b)

    def state(done):
        expect(len(pt) == done + 1, "%d steps stored after %d transitions", len(pt), done)
        for k in range(done + 1):
            expect(pt[k].pa.part.shape[0] == case["N"] and len(pt[k].ancestors) == case["N"], "step %d", k)
            expect(pt.tvec[k] == k, "time stamp of index %d is %s", k, pt.tvec[k])
            expect(same(pt.yvec[k], ys[k]), "measurement stored at index %d is %r instead of %r", k, pt.yvec[k], ys[k])
        for k in range(done):
            expect(same(pt.uvec[k], us[k]), "input stored at index %d is %r instead of %r", k, pt.uvec[k], us[k])

    if case["first"] is not None:
        ys[0] = conv(case["first"], case["kind"])
        pt.measure(ys[0])
        calls += 1
        state(0)
    for k, (u, y) in enumerate(case["steps"]):
        u, y = conv(u, case["kind"]), conv(y, case["kind"])
        us.append(u)
        if y is None:
            rec.label("missing")
        if case["split"][k] and y is not None:
            rec.label("split")
            ys.append(None)
            ret = pt.forward(u, None)
            state(k + 1)
            ys[-1] = y
            pt.measure(y)
            calls += 1
        else:
            ys.append(y)
            ret = pt.forward(u, y)
        expect(ret in (True, False), "forward() returned %r", ret)
        calls += 1
        state(k + 1)
        if case["smooth"][k]:
            straj = pt.perform_smoothing(3, method=case["smooth"][k])
            expect(len(straj) == k + 2, "smoothed %d of %d steps", len(straj), k + 2)
            for j in range(k + 2):
                expect(straj.t[j] == j and same(straj.y[j], ys[j]), "measurement %d of the smoothed trajectory", j)
            for j in range(k + 1):
                expect(same(straj.u[j], us[j]), "input %d of the smoothed trajectory", j)
            state(k + 1)
    rec.nontrivial = calls >= 3


@st.composite
def sim_case(draw):
    n = draw(st.integers(1, 7))
    return dict(n=n, u=draw(strat.oneof("none", "list", "array", "vector")),
                y=draw(strat.oneof("list", "array", "vector", "gaps")),
                meas_first=draw(st.booleans()), N=draw(strat.oneof(1, 3, 6)),
                filter=draw(strat.oneof("pf", "PF", "apf", "sir", "cpf", "pfy")), seed=draw(strat.seeds),
                smoother=draw(strat.oneof(None, "ancestor", "full")), M=draw(st.integers(0, 4)),
                par=draw(strat.trace_params()), twice=draw(st.booleans()))


@check("C05", sim_case, quick=500, thorough=8000, rule="at least two transitions",
       need=("meas_first", "meas_after", "none", "vector", "gaps", "again"))
def simulator_pairs_inputs_and_measurements(case, rec):
    """simulate() pairs inputs with measurements as documented: measurement i is
    of the state reached with input i (or, measuring the initial state first, of
    the state reached with input i-1)."""
    from pyparticleest.simulator import Simulator
    from pyparticleest.filter import ParticleApproximation
    rng = numpy.random.RandomState(case["seed"])
    n = case["n"]
    filt = case["filter"]
    if case["y"] == "gaps" and filt in ("sir", "pfy"):
        case = dict(case, y="list")
    mf = case["meas_first"]
    if case["y"] == "vector":
        y = rng.randint(-16, 17, (n, 2)) / 8.0
    else:
        y = rng.randint(-16, 17, n) / 8.0
        if case["y"] != "array":
            y = [float(v) for v in y]
        if case["y"] == "gaps":
            y = [None if (i and rng.randint(3) == 0) else v for i, v in enumerate(y)]
    if case["u"] == "none":
        u = None
    elif case["u"] == "vector":
        u = rng.randint(-16, 17, (n, 3)) / 8.0
    else:
        u = rng.randint(-16, 17, n) / 8.0
        if case["u"] == "list":
            u = [float(v) for v in u]
    par = dict(case["par"], lik="gauss")
    model = trace.make_model(par, trace.KIND.get(filt.lower(), "markov"))
    numpy.random.seed(rng.randint(2 ** 31 - 1))
    rec.label("meas_first" if mf else "meas_after", "none" if u is None else None,
              "vector" if case["u"] == "vector" or case["y"] == "vector" else None, case["y"])
    opts = None
    if filt == "cpf":
        opts = {"cond_traj": trace.cond_traj(rng, n + 1)}
    smoother = case["smoother"] if filt not in ("sir",) else (case["smoother"] and "ancestor")
    ycopy, ucopy = (numpy.array(y, dtype=object), None if u is None else numpy.array(u, dtype=object))
    sim = Simulator(model, u, y)
    for again in range(2 if case["twice"] else 1):
        if again:
            rec.label("again")
        nres = sim.simulate(case["N"], case["M"], filter=filt, filter_options=opts, smoother=smoother,
                            res=0.67, meas_first=mf)
        T = n if mf else n + 1
        pt = sim.pt
        expect(0 <= nres <= T - 1, "%s resamplings", nres)
        if mf is False or n > 1:
            rec.nontrivial = T > 2
        if T == 1 and not mf:
            continue
        expect(len(pt) == T, "%d filter steps for %d measurements (meas_first=%s)", len(pt), n, mf)
        for k in range(T):
            yk = y[k] if mf else (None if k == 0 else y[k - 1])
            got = pt.yvec[k]
            expect((got is None) if yk is None else numpy.array_equal(got, yk),
                   "index %d of the filter has measurement %r instead of %r", k, got, yk)
            if k < T - 1:
                uk = None if u is None else u[k]
                got = pt.uvec[k]
                expect((got is None) if uk is None else numpy.array_equal(got, uk),
                       "index %d of the filter has input %r instead of %r", k, got, uk)
                s = pt[k + 1].pa.part
                rows = s[:-1] if filt == "cpf" else s
                if filt.lower() != "pfy":
                    expect(numpy.allclose(rows[:, trace.UU], _num(uk)) and numpy.all(rows[:, trace.TT] == k),
                           "transition %d used input %s and time %s", k, rows[:, trace.UU].tolist(),
                           rows[:, trace.TT].tolist())
        if smoother is not None and case["M"] > 0:
            expect(len(sim.straj) == T, "smoothed trajectory of %d steps", len(sim.straj))
            est = sim.get_smoothed_estimates()
            expect(est.shape == (T, case["M"], trace.WIDTH), "smoothed estimates %s", est.shape)
        else:
            expect(sim.straj is None, "a smoothed trajectory without smoothing")
    assert ParticleApproximation
    expect(all((a is None and b is None) or numpy.array_equal(a, b) for a, b in zip(numpy.array(y, dtype=object), ycopy)),
           "the measurements handed over were modified")
    if u is not None:
        expect(all(numpy.array_equal(a, b) for a, b in zip(numpy.array(u, dtype=object), ucopy)),
               "the inputs handed over were modified")


@st.composite
def space_case(draw):
    d = draw(runs.run_st(Ns=(2, 3, 5)))
    d["extra"] = draw(st.integers(1, 6))
    d["mid"] = draw(st.booleans())
    return d


@check("C05", space_case, quick=500, thorough=10000, shards=2, rule="more space than steps; smoothed with measurements",
       need=runs.KINDS + ("mid-run",))
def unused_space_changes_nothing(d, rec):
    """A trajectory with space for more steps than were made (T larger) gives
    the results of one which grows as needed: filtering, smoothing at the end
    and smoothing in the middle of the run."""
    from pyparticleest.filter import ParticleTrajectory
    r = runs.R(d)
    ct = r.cond()
    k = r.kw(ctraj=ct)

    def run(**kw):
        model = r.model()
        if hasattr(model, "next_uid"):
            model.next_uid = 1.0
        numpy.random.seed(d["rseed"])
        pt = ParticleTrajectory(model, k["num_part"], k["res"], filter=k["filter"],
                                filter_options=k["filter_options"], **kw)
        out = []

        def smooth(n):
            numpy.random.seed(d["rseed"] + 1)
            s = pt.perform_smoothing(k["num_traj"], method=k["smoother"], smoother_options=k["smoother_options"])
            est = numpy.array(s.get_smoothed_estimates(), dtype=float)
            expect(len(s) == n and len(est) == n, "smoothed trajectory of %d steps after %d", len(s), n)
            out.append(est)
        y = list(r.y)
        if r.first:
            pt.measure(y.pop(0))
        for i in range(r.n):
            pt.forward(r.u[i], y[i])
            if d["mid"] and i == r.n // 2 and i < r.n - 1:
                rec.label("mid-run")
                smooth(i + 2)
                numpy.random.seed(d["rseed"] + 2)
        smooth(r.n + 1)
        return out + [numpy.concatenate([numpy.ravel(q.pa.w) for q in pt.traj])] + \
            [numpy.array(q.pa.part, dtype=float) for q in pt.traj]
    rec.label(d["kind"])
    rec.nontrivial = r.n >= 1 and any(v is not None for v in r.y)
    a = run()
    for extra in (0, d["extra"]):
        b = run(T=r.n + 1 + extra)
        for p, q in zip(a, b):
            expect(p.shape == q.shape and numpy.allclose(p, q, rtol=1e-8, atol=1e-9, equal_nan=True),
                   "%s, %s: with space for %d more steps %s instead of %s", d["filter"], d["smoother"], extra,
                   numpy.array2string(q, threshold=20), numpy.array2string(p, threshold=20))
