"""C28: only differences of log densities matter: constants in them, however
large, and very unequal weights do no harm."""
import numpy
from hypothesis import strategies as st
from vlib.core import check, expect
from vlib import runs, strat

OFFS = (0.0, 0.0, -745.0, 710.0, -5e3, 2e4, -1e6, 1e6)


# kind of density, argument giving the time index, its position
WHEN = {"measure_full": ("y", "tvec", 4), "measure": ("y", "t", 2), "logp_xnext": ("x", "t", 3), "logp_q": ("q", "t", 4),
        "logp_xnext_full": ("x", "cur_ind", 8), "logp_xnext_singlestep": ("x", "cur_ind", 8),
        "logp_xnext_max_full": ("x", "cur_ind", 6), "eval_1st_stage_weights": ("q", "t", 3),
        "eval_logp_x0": ("x0", "t", 1), "logp_proposal": ("p", "cur_ind", 8)}


class Offset(object):
    """Adds a constant per kind of density and time index to whatever the model
    returns."""

    def __init__(self, model, offs, T):
        self._m, self._o, self._T = model, offs, T

    def __getattr__(self, name):
        v = getattr(self._m, name)
        o, T = self._o, self._T

        def at(k, t):
            return o[k][int(round(float(t))) % len(o[k])]
        if name not in WHEN:
            return v
        kind, arg, pos = WHEN[name]

        def call(*a, **k):
            t = k[arg] if arg in k else a[pos]
            return v(*a, **k) + at(kind, t[-1] if arg == "tvec" else 0 if name == "eval_logp_x0" else t)
        return call


@st.composite
def case_st(draw):
    d = draw(runs.run_st(kinds=("trace", "trace", "sir", "nlg", "nlg", "mix", "hier", "ltv", "marg")))
    d["offs"] = {k: [draw(st.sampled_from(OFFS)) for _ in range(6)] for k in ("y", "x", "q", "x0", "p")}
    return d


@check("C28", case_st, quick=700, thorough=14000, shards=2, rule="more than one step and offsets beyond +-700 in use",
       need=("trace", "sir", "nlg", "mix", "hier", "marg", "rs", "rsas", "mcmc", "full", "mhips", "mhbp", "apf", "cpfas", "cpfyas", "csiras", "pfy"))
def constants_do_not_matter(d, rec):
    r = runs.R(d)
    ct = r.cond()
    plain = dict(runs.outcome(r.simulate(r.model(), ctraj=ct)))
    m = r.model()
    s = r.simulate(Offset(m, d["offs"], r.n + 1), ctraj=ct)
    off = dict(runs.outcome(s))
    for k in plain:
        if k == "log weight offsets":
            continue
        a, b = plain[k], off[k]
        expect(a.shape == b.shape and numpy.allclose(a, b, rtol=1e-6, atol=1e-6, equal_nan=True),
               "%s with constants added to the log densities (%s): %s, without: %s", k, d["offs"],
               numpy.array2string(b, threshold=20), numpy.array2string(a, threshold=20))
    rec.label(d["kind"], d["filter"], d["smoother"])
    rec.nontrivial = r.n > 1 and any(abs(v) > 700 for v in d["offs"]["y"][:r.n + 1])


@st.composite
def steep_st(draw):
    d = draw(runs.run_st(kinds=("trace", "trace", "sir"), extreme=True, min_steps=2))
    d["case"]["par"]["q"] = draw(strat.oneof(0.125, 1e-3, 1e-6))
    return d


@check("C28", steep_st, quick=400, thorough=8000, rule="some weight vector spans more than 700 in the log domain",
       need=("underflow", "trace", "sir"))
def very_unequal_weights(d, rec):
    """Estimates are finite, weights are a probability vector, and smoothed
    states are among the particles, however unequal the weights."""
    r = runs.R(d)
    s = r.simulate(r.model(), ctraj=r.cond())
    o = dict(runs.outcome(s))
    for k, v in o.items():
        if k != "ancestors":
            expect(numpy.all(numpy.isfinite(v)), "%s: %s", k, numpy.array2string(v, threshold=40))
    w = o["weights"]
    expect(numpy.all(w >= 0) and numpy.allclose(numpy.sum(w, axis=1), 1.0, rtol=1e-9), "weights %s", w.tolist())
    under = False
    for t in range(r.n + 1):
        part, lw = o["filtered estimates"][t], numpy.ravel(s.pt.traj[t].pa.w)
        under = under or numpy.ptp(lw) > 700
        for j in range(d["M"]):
            hit = numpy.all(part == o["smoothed estimates"][t, j], axis=1)
            expect(numpy.any(hit), "smoothed state at %d is not one of the particles", t)
            expect(numpy.max(lw[hit]) > -numpy.inf, "smoothed state at %d has no weight", t)
    rec.label("underflow" if under else "", d["kind"], d["filter"], d["smoother"])
    rec.nontrivial = under
