"""Complete runs (model class x filter x smoother x data) in one description, for
the properties which are about runs as a whole."""
import numpy
from hypothesis import strategies as st
from vlib import strat, models, trace

KINDS = ("trace", "sir", "ltv", "nlg", "mix", "marg", "hier")
FILTERS = {
    "trace": ("pf", "apf", "pfy", "cpf", "cpfas", "cpfyas"), "sir": ("sir", "csiras"), "ltv": ("pf",),
    "nlg": ("pf", "cpf", "cpfas"), "mix": ("pf",), "marg": ("pf",),
    "hier": ("pf",)}
SMOOTHERS = {
    "trace": ("full", "rs", "rsas", "mcmc", "ancestor"), "sir": ("ancestor",), "ltv": ("full", "mcmc", "ancestor"),
    "nlg": ("full", "rs", "rsas", "mcmc", "ancestor", "mhips", "mhips_reduced", "mhbp"),
    "mix": ("full", "rs", "rsas", "mcmc", "ancestor", "mhips", "mhips_reduced", "mhbp"),
    "marg": ("full", "rs", "mcmc", "ancestor", "mhips", "mhips_reduced"),
    "hier": ("full", "rs", "rsas", "mcmc", "ancestor", "mhips_reduced")}
OPTS = {"rs": {"R": 3}, "mcmc": {"R": 3}, "mhips": {"R": 2}, "mhips_reduced": {"R": 2}, "mhbp": {"R": 2}}


@st.composite
def run_st(draw, kinds=KINDS, min_steps=1, extreme=False, filters=None, Ns=(2, 3, 5, 8)):
    kind = draw(st.sampled_from(kinds))
    filt = draw(st.sampled_from([f for f in FILTERS[kind] if filters is None or f in filters]))
    sm = draw(st.sampled_from(SMOOTHERS[kind]))
    if kind == "marg" and sm == "rs":
        sm = "full"
    d = dict(kind=kind, filter=filt, smoother=sm, M=draw(strat.size(st.integers(1, 4), 9, 30)),
             N=draw(strat.size(st.sampled_from(Ns), 20, 60, 130)), res=draw(strat.oneof(0.0, 0.47, 0.67, 1.5)),
             rseed=draw(strat.seeds))
    if kind in ("trace", "sir"):
        d["case"] = draw(strat.trace_case((filt,), min_steps=max(2, min_steps), max_steps=5, extreme=extreme, Ns=(2,)))
        d["case"]["par"]["lik"] = "gauss"
    elif kind == "ltv":
        d["case"] = draw(models.ltv_case(min_steps=max(1, min_steps), max_steps=4))
    elif kind == "nlg":
        c = draw(models.nlg_case())
        n = draw(st.integers(min_steps, 4))
        c.update(n=n, miss=[draw(st.integers(0, 4)) == 0 for _ in range(n)], first=draw(st.booleans()))
        d["case"] = c
    elif kind in ("mix", "marg"):
        d["case"] = draw(models.mlnlg_case(min_steps=min_steps, max_steps=4, certain=True))
    else:
        d["case"] = draw(models.hier_case(min_steps=min_steps, max_steps=4))
        # smoothed hierarchical trajectories hold both: MHIPS is only for the narrow layout
        d["case"]["wide"] = False
        if sm in ("rs", "rsas"):
            d["case"]["rs"] = True
    if filt in trace.CONDITIONAL:
        d["case"]["miss"] = [False] * d["case"].get("n", 0)
    return d


class R(object):
    """data, a way to make fresh models, and the arguments of simulate"""

    def __init__(self, d):
        self.d = d
        c, kind = d["case"], d["kind"]
        if kind in ("trace", "sir"):
            as_ = lambda v: None if v is None else numpy.asarray(v, dtype=float)
            self.model = lambda: trace.make_model(c["par"], "sir" if kind == "sir" else "markov")
            self.u = [as_(s[0]) for s in c["steps"]]
            self.y = [as_(s[1]) for s in c["steps"]]
            y0 = as_(c["first"])
            self.first = y0 is not None
            self.n = len(self.u)
        elif kind == "nlg":
            rng = numpy.random.RandomState(c["seed"] // 2)
            n, self.first, self.n = c["n"], c["first"], c["n"]
            sh = (c["ly"], 1) if c["yform"] == "col" else (c["ly"],)
            w = models.NLGTruth(c).w
            ys = [w * rng.uniform(-2, 2, sh) for _ in range(n + 1)]
            y0 = ys[0] if c["first"] else None
            self.y = [None if q else v for q, v in zip(c["miss"], ys[1:])]
            self.u = [float(rng.uniform(-1, 1)) if c["u"] else None for _ in range(n)]
            self.model = lambda: models.nlg_model(models.NLGTruth(c))
        else:
            T = {"ltv": models.LTVTruth, "hier": models.HierTruth}.get(kind, models.MLNLGTruth)
            tr = T(c)
            mk = {"ltv": models.ltv_model, "hier": models.hier_model,
                  "mix": lambda tr: models.mlnlg_model(tr, kind="sampled"),
                  "marg": lambda tr: models.mlnlg_model(tr, kind="marginalized")}[kind]
            self.model = lambda: mk(T(c))
            self.u, self.y, y0, self.first, self.n = list(tr.u), list(tr.y), tr.y0, c["first"], c["n"]
        if self.first:
            self.y = [y0] + self.y

    def kw(self, filt=None, smoother="", ctraj=None):
        d = self.d
        f = filt or d["filter"]
        sm = d["smoother"] if smoother == "" else smoother
        o = {"cond_traj": ctraj} if f in trace.CONDITIONAL else None
        return dict(num_part=d["N"], num_traj=d["M"], filter=f, filter_options=o, smoother=sm,
                    smoother_options=dict(OPTS[sm]) if sm in OPTS else None, res=d["res"], meas_first=self.first)

    def cond(self):
        """a conditioning trajectory in the model's own particle layout"""
        if self.d["filter"] not in trace.CONDITIONAL:
            return None
        f = {"csiras": "sir"}.get(self.d["filter"], "pf")
        s = models.lib().simulator.Simulator(self.model(), u=self.u, y=self.y)
        numpy.random.seed(99)
        k = self.kw(filt=f, smoother="ancestor")
        k["num_traj"] = 1
        s.simulate(**k)
        return s.straj.traj

    def simulate(self, model, seed=None, ctraj=None, sim=None):
        if hasattr(model, "next_uid"):
            model.next_uid = 1.0            # the recording model numbers its particles
        s = sim or models.lib().simulator.Simulator(model, u=self.u, y=self.y)
        numpy.random.seed(self.d["rseed"] if seed is None else seed)
        s.nres = s.simulate(**self.kw(ctraj=ctraj))
        return s


def outcome(s):
    """(name, array) of everything a run yields, copied"""
    est, w = s.get_filtered_estimates()
    sest = s.get_smoothed_estimates()
    r = [("filtered estimates", est), ("weights", w), ("filtered mean", s.get_filtered_mean()),
         ("smoothed estimates", sest), ("smoothed mean", s.get_smoothed_mean()),
         ("ancestors", [[-1 if a is None else a for a in numpy.ravel(q.ancestors)] for q in s.pt.traj[1:]]),
         ("log weight offsets", [q.pa.w_offset for q in s.pt.traj]),
         ("resamplings", [s.nres])]
    return [(k, numpy.array(v, dtype=float)) for k, v in r]
