"""C27: runs are repeatable, independent of earlier runs, and leave alone what
they were given."""
import copy
import numpy
from hypothesis import strategies as st
from vlib.core import check, expect
from vlib import runs, models, strat
from props import c25


def equal(a, b, what, exact=False):
    """exact for arrays which must not have been touched; equal up to rounding
    for repeated computations (BLAS may depend on memory alignment)"""
    for (k, x), (_k, y) in zip(a, b):
        expect(x.shape == y.shape and (numpy.array_equal(x, y, equal_nan=True) or (
            not exact and numpy.allclose(x, y, rtol=1e-8, atol=1e-9, equal_nan=True))), "%s: %s: %s, before %s", what, k,
               numpy.array2string(y, threshold=20), numpy.array2string(x, threshold=20))


def snapshot(o):
    return copy.deepcopy(o)


def same_data(a, b, what):
    expect(len(a) == len(b), "%s changed its length", what)
    for i, (x, y) in enumerate(zip(a, b)):
        expect((x is None) == (y is None), "%s[%d] changed", what, i)
        if x is not None:
            expect(type(x) is type(y) and numpy.array_equal(numpy.asarray(x), numpy.asarray(y)) and numpy.shape(x) == numpy.shape(y),
                   "%s[%d] was changed from %r to %r", what, i, x, y)


@st.composite
def case_st(draw):
    d = draw(runs.run_st())
    d["other"] = draw(strat.seeds)
    d["scale"] = draw(strat.oneof(0.5, -1.0, 2.0))
    d["same_sim"] = draw(st.booleans())
    return d


@check("C27", case_st, quick=700, thorough=14000, shards=2, rule="more than one step; another run with other data in between",
       need=runs.KINDS + ("missing",))
def runs_are_independent(d, rec):
    r = runs.R(d)
    ct = r.cond()
    u0, y0, ct0 = snapshot(r.u), snapshot(r.y), None if ct is None else [s.pa.part.copy() for s in ct]
    first = r.simulate(r.model(), ctraj=ct)
    res = runs.outcome(first)
    same_data(u0, r.u, "u")
    same_data(y0, r.y, "y")
    equal(res, runs.outcome(first), "asking again", True)
    m = r.model()
    s = r.simulate(m, ctraj=ct)
    mine = runs.outcome(s)
    equal(res, mine, "a second identical model")
    # another data set through the same model
    r2 = copy.copy(r)
    r2.y = [None if v is None else numpy.asarray(v, float) * d["scale"] for v in r.y]
    r2.u = [None if v is None else v * 0.5 for v in r.u]
    if d["same_sim"]:
        keep, s.u, s.y = (s.u, s.y), r2.u, r2.y
        pt, straj = s.pt, s.straj
        r2.simulate(m, seed=d["other"], ctraj=ct, sim=s)
        old = copy.copy(s)
        old.pt, old.straj, old.nres = pt, straj, first.nres
        equal(mine, runs.outcome(old), "the results of the run before, after another run of the same simulator", True)
        s.u, s.y = keep
        r.simulate(m, ctraj=ct, sim=s)
        equal(res, runs.outcome(s), "running again after another data set")
    else:
        r2.simulate(m, seed=d["other"], ctraj=ct)
        equal(mine, runs.outcome(s), "the results of the run before, after another run of the same model", True)
        equal(res, runs.outcome(r.simulate(m, ctraj=ct)), "running again after another data set")
    same_data(u0, r.u, "u")
    same_data(y0, r.y, "y")
    if ct is not None:
        expect(all(numpy.array_equal(a, q.pa.part) for a, q in zip(ct0, ct)), "the conditioning trajectory was changed")
    rec.label(d["kind"], d["filter"], d["smoother"], "missing" if any(v is None for v in r.y) else "")
    rec.nontrivial = r.n > 1


@st.composite
def pair_st(draw):
    a = draw(runs.run_st())
    share = a["kind"] not in ("trace", "sir") and draw(st.integers(0, 2)) == 0     # the recording models number their particles
    if share:
        b = copy.deepcopy(a)
        b["rseed"], b["N"] = draw(strat.seeds), draw(st.sampled_from((a["N"], 2, 4)))
    elif draw(st.booleans()):
        b = copy.deepcopy(a)
        b["rseed"] = draw(strat.seeds)
        if "seed" in b["case"]:
            b["case"]["seed"] = draw(strat.seeds)       # other matrices and data of the same sizes
    else:
        b = draw(runs.run_st(kinds=(a["kind"],) if draw(st.integers(0, 3)) else runs.KINDS))
    return dict(runs=[a, b], order=draw(st.lists(st.integers(0, 1), min_size=1, max_size=10)), made=draw(st.booleans()),
                share=share)


class Stepper(object):
    """a run taken one step at a time, with its own stream of random numbers"""

    def __init__(self, d, ct, make=True, model=None):
        self.r, self.d = runs.R(d), d
        self.k = self.r.kw(ctraj=ct)
        self.i, self.nres, self.straj, self.pt, self.m = -1, 0, None, None, None
        self.shared = model
        numpy.random.seed(d["rseed"])
        self.state = numpy.random.get_state()
        if make:
            self.make()

    def make(self):
        k = self.k
        self.m = self.shared or self.r.model()
        if hasattr(self.m, "next_uid"):
            self.m.next_uid = 1.0
        self.pt = runs.models.lib().filter.ParticleTrajectory(self.m, k["num_part"], k["res"], filter=k["filter"], filter_options=k["filter_options"])

    def step(self):
        """False when there is nothing left to do"""
        r, k = self.r, self.k
        if self.straj is not None:
            return False
        if self.m is None:
            self.make()
        numpy.random.set_state(self.state)
        ys = r.y[1:] if r.first else r.y
        if self.i < 0:
            self.i = 0
            if r.first:
                self.pt.measure(r.y[0])
        elif self.i < len(ys):
            self.nres += bool(self.pt.forward(r.u[self.i], ys[self.i]))
            self.i += 1
        else:
            self.straj = self.pt.perform_smoothing(k["num_traj"], method=k["smoother"], smoother_options=k["smoother_options"])
        self.state = numpy.random.get_state()
        return True


@check("C27", pair_st, quick=300, thorough=8000, rule="two runs of several steps of the same kind of model, alternating",
       need=runs.KINDS + ("same sizes", "other sizes", "one model"))
def runs_can_take_turns(case, rec):
    """Two runs, over two models or over one, alive at the same time and taking
    turns in any order, each give what they give on their own."""
    cts, refs = [], []
    for d in case["runs"]:
        r = runs.R(d)
        ct = r.cond()
        cts.append(ct)
        refs.append(runs.outcome(r.simulate(r.model(), ctraj=ct)))
    one = runs.R(case["runs"][0]).model() if case["share"] else None
    models.CLASSES = {}                 # both are objects of one class
    try:
        ss = [Stepper(d, ct, make=case["made"], model=one) for d, ct in zip(case["runs"], cts)]
        for i in case["order"]:
            ss[i].step()
        while any([s.step() for s in ss]):
            pass
    finally:
        models.CLASSES = None
    for q, s, ref in zip(("first", "second"), ss, refs):
        sim = models.lib().simulator.Simulator(s.m, u=s.r.u, y=s.r.y)
        sim.pt, sim.straj, sim.nres = s.pt, s.straj, s.nres
        equal(ref, runs.outcome(sim), "the %s of two runs which take turns" % q)
    a, b = case["runs"]
    rec.label(a["kind"], "one model" if case["share"] else "same sizes" if a["case"] is not b["case"] and a["N"] == b["N"] and a["kind"] == b["kind"] else "other sizes")
    rec.nontrivial = a["kind"] == b["kind"] and min(s.i for s in ss) > 1


@st.composite
def smooth_st(draw):
    d = draw(runs.run_st())
    d["again"] = draw(st.lists(st.tuples(st.sampled_from(runs.SMOOTHERS[d["kind"]]), st.integers(1, 4)), min_size=1, max_size=3))
    if d["kind"] in ("marg", "hier", "nlg"):
        ok = [s for s in d["again"] if s[0] not in ("rs", "rsas")]
        d["again"] = ok or [("ancestor", 2)]
    return d


@check("C27", smooth_st, quick=500, thorough=10000, rule="several smoothing passes over the same filter run", need=("trace", "mix", "nlg"))
def smoothing_leaves_the_filter_alone(d, rec):
    """Any number of smoothing passes over one filter run change neither the
    filter's history nor earlier trajectories; a pass repeated with the same
    random numbers gives the same trajectories."""
    r = runs.R(d)
    s = r.simulate(r.model(), ctraj=r.cond())
    res = runs.outcome(s)
    earlier = [(s.straj, s.get_smoothed_estimates().copy())]
    passes = []
    for sm, M in d["again"]:
        numpy.random.seed(M + 17)
        o = dict(runs.OPTS[sm]) if sm in runs.OPTS else None
        o0 = copy.deepcopy(o)
        tr = s.pt.perform_smoothing(M, method=sm, smoother_options=o)
        expect(o == o0, "the smoother options were changed from %r to %r", o0, o)
        passes.append((sm, M, tr.get_smoothed_estimates().copy()))
        earlier.append((tr, passes[-1][2]))
    equal(res, runs.outcome(s), "after more smoothing", True)
    for tr, e in earlier:
        expect(numpy.array_equal(tr.get_smoothed_estimates(), e), "earlier smoothed trajectories changed")
    for sm, M, e in reversed(passes):
        numpy.random.seed(M + 17)
        tr = s.pt.perform_smoothing(M, method=sm, smoother_options=dict(runs.OPTS[sm]) if sm in runs.OPTS else None)
        expect(numpy.allclose(tr.get_smoothed_estimates(), e, rtol=1e-8, atol=1e-9), "%s smoothing with the same random numbers gives other trajectories after other passes", sm)
    rec.label(d["kind"], *[p[0] for p in passes])
    rec.nontrivial = len(passes) > 1 and r.n > 1


@check("C27", case_st, quick=400, thorough=8000, rule="at least three time indices", need=runs.KINDS)
def steps_leave_the_past_alone(d, rec):
    """The approximation of a time index never changes once the filter has moved
    on, and stepping by hand gives what the simulator gives; smoothing half way
    changes nothing."""
    r = runs.R(d)
    k = r.kw(ctraj=r.cond())
    ref = runs.outcome(r.simulate(r.model(), ctraj=k["filter_options"] and k["filter_options"]["cond_traj"]))
    m = r.model()
    if hasattr(m, "next_uid"):
        m.next_uid = 1.0
    numpy.random.seed(d["rseed"])
    pt = runs.models.lib().filter.ParticleTrajectory(m, k["num_part"], k["res"], filter=k["filter"], filter_options=k["filter_options"])
    past, kept = [], []
    if r.first:
        pt.measure(r.y[0])
    nres = 0
    ys = r.y[1:] if r.first else r.y
    for i, y in enumerate(ys):
        if pt.traj:
            s = pt.traj[-1]
            past.append((len(pt.traj) - 1, s.pa.part.copy(), s.pa.w.copy(), numpy.copy(s.ancestors) if i else None))
        nres += bool(pt.forward(r.u[i], y))
        if d["other"] % 3 == 0:
            keep = numpy.random.get_state()
            uid = getattr(m, "next_uid", None)
            tr = pt.perform_smoothing(2, method="ancestor")
            kept.append((tr, tr.get_smoothed_estimates().copy(), copy.deepcopy((list(tr.u), list(tr.y), list(tr.t)))))
            numpy.random.set_state(keep)
            if uid is not None:
                m.next_uid = uid
        for j, p, w, a in past:
            q = pt.traj[j]
            expect(numpy.array_equal(q.pa.part, p) and numpy.array_equal(q.pa.w, w) and (a is None or numpy.array_equal(q.ancestors, a)),
                   "the approximation of index %d changed when the filter moved to index %d", j, i + 1)
    got = [("filtered estimates", numpy.array([s.pa.part for s in pt.traj], dtype=float)),
           ("weights", numpy.array([numpy.exp(s.pa.w) / numpy.exp(s.pa.w).sum() for s in pt.traj])),
           ("resamplings", numpy.array([nres], dtype=float))]
    for name, v in got:
        e = dict(ref)[name]
        expect(e.shape == v.shape and numpy.allclose(e, v, rtol=1e-9, atol=1e-10, equal_nan=True),
               "%s: stepping by hand gives other %s than the simulator", k["filter"], name)
    if k["filter"] == "pf" and ys[-1] is not None:
        keep = numpy.random.get_state()
        tr = pt.perform_smoothing(2, method="ancestor")
        kept.append((tr, tr.get_smoothed_estimates().copy(), copy.deepcopy((list(tr.u), list(tr.y), list(tr.t)))))
        pt.measure(numpy.asarray(ys[-1]) * 0.5)
    for tr, est, data in kept:
        expect(numpy.array_equal(tr.get_smoothed_estimates(), est), "earlier smoothed trajectories changed when the filter was run on")
        for what, a, b in zip("uyt", data, (tr.u, tr.y, tr.t)):
            expect(len(a) == len(b), "%s of earlier smoothed trajectories: length %d, was %d", what, len(b), len(a))
            same_data(a, b, "%s of earlier smoothed trajectories" % what)
    rec.label(d["kind"], d["filter"])
    rec.nontrivial = r.n > 1


@st.composite
def copy_st(draw):
    d = draw(runs.run_st(kinds=("trace", "ltv", "nlg", "mix", "marg", "hier"), filters=("pf",)))
    d["other"] = draw(strat.seeds)
    return d


@check("C27", copy_st, quick=300, thorough=6000, rule="a measurement at the last index")
def updating_a_copy(d, rec):
    """The particle filter's update and measure on request leave what they are
    given intact, and then give what they give in place."""
    r = runs.R(d)
    s = r.simulate(r.model())
    pt, m = s.pt, s.pt.pf.model
    L = models.lib()
    pf = L.filter.ParticleFilter(m, d["res"])
    traj, N, n = pt.traj[:-1], d["N"], len(pt.traj) - 1
    us, ys, ts = list(pt.uvec), list(pt.yvec), list(pt.tvec)
    last = traj[-1].pa
    anc = numpy.arange(N)
    snap = lambda pa: (pa.part.copy(), pa.w.copy(), pa.w_offset)
    same = lambda a, b, what: expect(all(numpy.array_equal(x, y) for x, y in zip(a, b)), "%s changed the approximation it was given", what)
    k = dict(traj=traj, ancestors=anc, uvec=us, yvec=ys, tvec=ts)
    given = L.filter.ParticleApproximation(last.part.copy(), last.w.copy())
    keep, past = snap(given), snap(last)
    out = []
    for inplace in (False, True):
        if hasattr(m, "next_uid"):
            m.next_uid = 1000.0
        numpy.random.seed(d["other"])
        got = pf.update(cur_ind=n - 1, pa=given, inplace=inplace, **k)
        if not inplace:
            expect(got is not given, "update returns what it was given")
            same(keep, snap(given), "update")
        same(past, snap(last), "update")
        out.append(got)
    equal([("particles", out[1].part), ("weights", numpy.exp(out[1].w - out[1].w.max()))],
          [("particles", out[0].part), ("weights", numpy.exp(out[0].w - out[0].w.max()))], "update of a copy and in place")
    if ys[n] is not None:
        keep = snap(out[0])
        if hasattr(m, "next_uid"):
            m.next_uid = 1000.0
        c = pf.measure(cur_ind=n, pa=out[0], inplace=False, **k)
        same(keep, snap(out[0]), "measure")
        e = pf.measure(cur_ind=n, pa=out[1], inplace=True, **k)
        expect(e is out[1], "measure in place returns another approximation")
        equal([("particles", e.part), ("weights", numpy.exp(e.w - e.w.max()))],
              [("particles", c.part), ("weights", numpy.exp(c.w - c.w.max()))], "measure of a copy and in place")
    rec.label(d["kind"], "N>1" if N > 1 else "")
    rec.nontrivial = ys[n] is not None


@st.composite
def est_case(draw):
    c = draw(c25.psaem_case())
    c["kind"] = draw(strat.oneof("EM", "SAEM", "PSAEM", "PSAEM2"))
    c["same"] = draw(st.booleans())
    c["iters"] = draw(st.integers(1, 4))
    return c


@check("C27", est_case, quick=300, thorough=6000, rule="several iterations", need=("EM", "SAEM", "PSAEM", "PSAEM2", "same object"))
def estimation_runs_are_repeatable(case, rec):
    """maximize() leaves its arguments alone; called again with the same
    arguments and the same random numbers it does the same."""
    P = c25.pe()
    m, y = c25.setup(case)
    n, N, kind = case["iters"], case["N"], case["kind"]
    y0 = list(y)
    kw = dict(max_iter=n, meas_first=case["first"], smoother=case["smoother"])
    param0 = numpy.array([0.5])
    sched = numpy.array([N, N + 1])
    args = [param0, sched.copy(), numpy.array([2, 1, 3])] if kind in ("EM", "SAEM") else [param0, N]
    opts = None
    if kind == "EM":
        cls = P.ParamEstimation
        kw["smoother_options"] = {"R": 3}
    else:
        kw["alpha_gen"] = lambda k: case["alpha"][min(k, len(case["alpha"]) - 1)]
        if kind == "SAEM":
            cls = P.ParamEstimationSAEM
            kw["smoother_options"] = {"R": 3}
        else:
            cls = P.ParamEstimationPSAEM if kind == "PSAEM" else P.ParamEstimationPSAEM2
            first = P.Simulator(m, None, y)
            m.set_params([0.25])
            numpy.random.seed(case["seed"])
            first.simulate(N, 1, smoother="ancestor", meas_first=case["first"])
            opts = {"cond_traj": first.straj.traj}
            kw.update(filter=case["filter"], filter_options=opts)
            given = first.straj.traj
            keep = [s.pa.part.copy() for s in given]
    est = cls(m, None, y)

    def run(e):
        m.got[:] = []
        m.step, m.uid = 0, 0.0
        numpy.random.seed(case["seed"] // 2)
        r = e.maximize(*args, **kw)
        out = []
        for g in m.got:
            if isinstance(g, tuple):
                out += [g[1], g[2]]
            else:
                out.append(g.get_smoothed_estimates().copy())
        return out + [numpy.array(r[0], dtype=float)]
    a = run(est)
    e2 = est if case["same"] else cls(m, None, y)
    if opts is not None:
        expect(set(opts) == {"cond_traj"} and opts["cond_traj"] is given,
               "%s: the filter options handed over were changed", kind)
        expect(all(numpy.array_equal(s.pa.part, k) for s, k in zip(given, keep)), "%s: the conditioning trajectory was changed", kind)
    b = run(e2)
    expect(len(a) == len(b) and all(x.shape == z.shape and numpy.allclose(x, z, rtol=1e-9, atol=1e-12) for x, z in zip(a, b)),
           "%s: the same call with the same random numbers gives something else", kind)
    expect(param0.tolist() == [0.5] and (kind not in ("EM", "SAEM") or (args[1].tolist() == sched.tolist() and args[2].tolist() == [2, 1, 3])),
           "%s: parameters or schedules were changed", kind)
    expect(y == y0, "%s: the measurements were changed", kind)
    expect("smoother_options" not in kw or kw["smoother_options"] == {"R": 3}, "%s: the smoother options were changed", kind)
    rec.label(kind, "same object" if case["same"] else "")
    rec.nontrivial = n > 1
