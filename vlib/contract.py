"""A model with memory that writes down everything it is told, so that every
call can be held against what the filter and the smoother really did."""
import numpy
from hypothesis import strategies as st
from vlib.core import expect
from vlib import strat

X, UID, STEP, STAMP = range(4)
WIDTH = 4
FILTERS = ("pf", "apf", "cpf", "cpfas", "pfy", "cpfyas")


def num(u):
    return None if u is None else float(numpy.sum(numpy.asarray(u, dtype=float)))


def make(case):
    import pyparticleest.interfaces as I

    class Model(I.ParticleFilteringNonMarkov, I.AuxiliaryParticleFiltering, I.FFBSiRSNonMarkov,
                I.FFProposeFromMeasure, I.SampleProposer):
        def __init__(self):
            self.log = []
            self.uid = 1.0
            self.stamp = 1.0
            self.smoothing = None       # name of the running smoother
            self.passes = 0

        # -- bookkeeping -------------------------------------------------
        def fresh(self, x, step):
            p = numpy.zeros((len(x), WIDTH))
            p[:, X], p[:, STEP] = x, step
            p[:, UID] = self.uid + numpy.arange(len(x))
            self.uid += len(x)
            return p

        def note(self, name, **k):
            d = dict(name=name, phase=self.smoothing, npass=self.passes)
            for a, v in k.items():
                if a in ("past", "future"):
                    d[a] = None if v is None else [numpy.array(s.pa.part, copy=True) for s in v]
                    d[a + "_anc"] = None if v is None else [None if s.ancestors is None else numpy.array(s.ancestors)
                                                            for s in v]
                elif a in ("u", "y"):
                    d[a] = None if v is None else [num(e) for e in v]
                elif v is None or isinstance(v, (int, str)):
                    d[a] = v
                else:
                    d[a] = numpy.array(v, copy=True)
            self.log.append(d)

        def back(self, past, anc, n):
            """a value of the past of every particle"""
            if past is None or len(past) == 0:
                return numpy.zeros(n)
            return past[-1].pa.part[anc][:, X]

        # -- filter -------------------------------------------------------
        def create_initial_estimate(self, N):
            return self.fresh(numpy.random.normal(size=N), 0)

        def sample_process_noise_full(self, ptraj, ancestors, ut, tt):
            self.note("noise", past=ptraj, anc=ancestors, u=ut, t=tt)
            v = numpy.random.normal(size=(len(ancestors), 2))
            v[:, 1] = ptraj[-1].pa.part[ancestors][:, UID]
            return v

        def update_full(self, particles, traj, uvec, yvec, tvec, ancestors, noise):
            self.note("update", part=particles, past=traj, u=uvec, y=yvec, t=tvec, anc=ancestors, noise=noise)
            n = self.fresh(0.7 * particles[:, X] + 0.2 * (num(uvec[-1]) or 0.0) + noise[:, 0], len(tvec))
            particles[:] = n
            return particles

        def measure_full(self, particles, traj, uvec, yvec, tvec, ancestors):
            self.note("measure", part=particles, past=traj, u=uvec, y=yvec, t=tvec, anc=ancestors)
            return -0.2 * (particles[:, X] - num(yvec[-1])) ** 2

        def eval_1st_stage_weights(self, particles, u, y, t):
            return -0.1 * (0.7 * particles[:, X] - num(y)) ** 2

        def propose_from_y(self, N, y, t):
            return self.fresh(num(y) + numpy.random.normal(size=N), int(t))

        # -- densities ----------------------------------------------------
        def logp_xnext_full(self, part, past_trajs, pind, future_trajs, find, ut, yt, tt, cur_ind):
            self.note("full", part=part, past=past_trajs, anc=pind, future=future_trajs, find=find, u=ut, y=yt, t=tt,
                      cur=int(cur_ind))
            r = -0.2 * (future_trajs[0].pa.part[find][:, X] - 0.7 * part[:, X]) ** 2
            return r - 0.05 * (self.back(past_trajs, pind, len(part)) - future_trajs[-1].pa.part[find][:, X]) ** 2

        def logp_xnext_singlestep(self, part, past_trajs, pind, future_parts, find, ut, yt, tt, cur_ind):
            self.note("single", part=part, past=past_trajs, anc=pind, next=future_parts, find=find, u=ut, y=yt, t=tt,
                      cur=int(cur_ind))
            return -0.2 * (future_parts[find][:, X] - 0.7 * part[:, X]) ** 2

        def logp_xnext_max_full(self, part, past_trajs, pind, uvec, yvec, tvec, cur_ind):
            self.note("bound", part=part, past=past_trajs, anc=pind, u=uvec, y=yvec, t=tvec, cur=int(cur_ind))
            return 0.0

        def eval_logp_x0(self, particles, t):
            self.note("initial", part=particles, time=numpy.asarray(t))
            return -0.5 * particles[:, X] ** 2

        # -- smoothing ----------------------------------------------------
        def sample_smooth(self, part, ptraj, anc, future_trajs, find, ut, yt, tt, cur_ind):
            res = numpy.copy(part)
            res[:, STAMP] = self.stamp + numpy.arange(len(res))
            self.stamp += len(res)
            self.note("smooth", part=part, past=ptraj, anc=anc, future=future_trajs, find=find, u=ut, y=yt, t=tt,
                      cur=int(cur_ind), result=res)
            return res

        def cond_predict_single_step(self, part, past_trajs, pind, future_parts, find, ut, yt, tt, cur_ind):
            self.note("condpredict", part=part, past=past_trajs, anc=pind, next=future_parts, find=find, u=ut, y=yt,
                      t=tt, cur=int(cur_ind))
            return numpy.copy(future_parts[find])

        def cond_sampled_initial(self, part, t):
            self.note("condinitial", part=part, time=numpy.asarray(t))
            return numpy.copy(part)

        def propose_smooth(self, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
            r = self.fresh(numpy.random.normal(size=len(find)), int(cur_ind))
            self.note("propose", past=ptraj, anc=anc, future=future_trajs, find=find, u=ut, y=yt, t=tt,
                      cur=int(cur_ind), result=r)
            return r

        def logp_proposal(self, prop_part, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
            self.note("proposal", part=prop_part, past=ptraj, anc=anc, future=future_trajs, find=find, u=ut, y=yt,
                      t=tt, cur=int(cur_ind))
            return -0.5 * prop_part[:, X] ** 2

        def pre_mhips_pass(self, st):
            self.passes += 1
            self.note("pass", past=st.traj)
            return st.traj

    return Model()


def same(a, b, fmt, *args):
    expect(numpy.array_equal(numpy.asarray(a), numpy.asarray(b)), fmt + ": %s instead of %s",
           *(args + (numpy.asarray(a).tolist(), numpy.asarray(b).tolist())))


class Judge(object):
    """Holds the calls against the filtered trajectory and the data."""

    def __init__(self, pt, u, y):
        self.T = len(pt)
        self.part = [numpy.array(s.pa.part, copy=True) for s in pt.traj]
        self.anc = [numpy.array(s.ancestors, copy=True) for s in pt.traj]
        self.u, self.y = [num(a) for a in u], [num(a) for a in y]
        self.index = [dict((r, i) for i, r in enumerate(p[:, UID])) for p in self.part]

    def data(self, c, upto, who, uto=None):
        """the vectors agree with the data at every index below `upto`"""
        same(c["t"][:upto], numpy.arange(upto), "%s: time stamps", who)
        for k in range(min(upto if uto is None else uto, self.T - 1)):
            if c.get("u") is not None:
                expect(len(c["u"]) > k and c["u"][k] == self.u[k], "%s: input %d is not the one of the data (%s)", who, k,
                       c["u"])
        if c.get("y") is not None:
            for k in range(min(upto, len(c["y"]))):
                if self.y[k] is not None:
                    expect(c["y"][k] == self.y[k], "%s: measurement %d is not the one of the data (%s)", who, k, c["y"])

    def past_is_filter(self, c, k, who):
        """the past handed over is the filtered trajectory of indices < k"""
        if k == 0:
            expect(not c["past"], "%s: a past of %d steps at the start", who, len(c["past"] or []))
            return
        expect(len(c["past"]) == k, "%s: a past of %d steps instead of %d", who, len(c["past"]), k)
        for i in range(k):
            same(c["past"][i], self.part[i], "%s: past particles of index %d", who, i)
            same(c["past_anc"][i], self.anc[i], "%s: past ancestors of index %d", who, i)

    def parents(self, part, anc, k, who):
        """anc are the recorded parents of these filter particles of index k"""
        for row, a in zip(part, anc):
            i = self.index[k].get(row[UID])
            expect(i is not None, "%s: particle %s is not one of the filter's at index %d", who, row[UID], k)
            if k > 0:
                expect(self.anc[k][i] == a, "%s: parent %d of a particle of index %d instead of %d", who, a, k,
                       self.anc[k][i])


@st.composite
def case_st(draw):
    filt = draw(st.sampled_from(FILTERS))
    n = draw(st.integers(1, 5))
    y = [None if filt not in ("pfy", "cpfyas") and draw(st.integers(0, 3)) == 0 else draw(strat.num()) for _ in range(n)]
    return dict(filter=filt, N=draw(st.integers(2, 9)), res=draw(strat.oneof(0.0, 0.67, 1.0)), seed=draw(strat.seeds),
                u=[draw(st.one_of(st.none(), strat.num())) for _ in range(n)], y=y, pre=draw(st.booleans()),
                first=draw(strat.num()) if draw(st.booleans()) else None)


def run(case):
    from pyparticleest.filter import ParticleTrajectory, ParticleApproximation, TrajectoryStep
    m = make(case)
    numpy.random.seed(case["seed"])
    T = len(case["y"]) + 1
    opts = {}
    if case["filter"].startswith("c"):
        ct = numpy.empty(T, dtype=object)
        for k in range(T):
            p = m.fresh(numpy.random.normal(size=1), k)
            p[:, UID] = -1000.0 - k
            ct[k] = TrajectoryStep(ParticleApproximation(p))
        opts = {"cond_traj": ct}
    kw = {"T": T} if case["pre"] else {}
    pt = ParticleTrajectory(m, case["N"], case["res"], filter=case["filter"], filter_options=opts, **kw)
    if case["first"] is not None:
        pt.measure(case["first"])
    for u, y in zip(case["u"], case["y"]):
        pt.forward(u, y)
    return m, pt, Judge(pt, case["u"], [case["first"]] + case["y"])
