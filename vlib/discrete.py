"""Finite state models whose posteriors can be enumerated."""
import itertools
import numpy
from hypothesis import strategies as st
from vlib import strat
from vlib.stats import logsumexp


@st.composite
def model_case(draw, Ks=(2, 3), spread=8, memory=False):
    """memory: the measurement may depend on the previous state as well"""
    K = draw(st.sampled_from(Ks))
    v = lambda n, s=spread: draw(st.lists(st.integers(-s, s), min_size=n, max_size=n))
    c = dict(K=K, pi=v(K), A=v(K * K), B=v(K * K, 4), C=v(K * K, 4), E=v(K), F=v(K, 4),
             Q=v(K), G=draw(st.integers(-6, 6)), H=draw(st.integers(-6, 6)), Y=v(K))
    if memory and draw(st.booleans()):
        c["D"] = v(K * K, 5)
    return c


@st.composite
def data_case(draw, min_steps=1, max_steps=3, missing=True, first=None):
    n = draw(st.integers(min_steps, max_steps))
    y = []
    for _ in range(n):
        y.append(None if missing and draw(st.integers(0, 4)) == 0 else draw(strat.num(-8, 8)))
    f = draw(st.booleans()) if first is None else first
    return dict(u=[draw(strat.num(-8, 8)) for _ in range(n)], y=y,
                first=draw(strat.num(-8, 8)) if f else None)


class HMM(object):
    """Probabilities of the finite model."""

    def __init__(self, c):
        K = self.K = c["K"]
        g = lambda k, *sh: numpy.array(c[k], dtype=float).reshape(sh) / 4.0
        self.pi = g("pi", K)
        self.A, self.B, self.C = g("A", K, K), g("B", K, K), g("C", K, K)
        self.E, self.F, self.Q, self.Yq = g("E", K), g("F", K), g("Q", K), g("Y", K)
        self.G, self.H = c["G"] / 4.0, c["H"] / 4.0
        self.D = g("D", K, K) if "D" in c else None

    def logpi(self):
        return self.pi - logsumexp(self.pi)

    def logP(self, u, t):
        L = self.A + self.B * t + self.C * (0.0 if u is None else float(u))
        return L - logsumexp(L, axis=1)[:, None]

    def loglik(self, y, t):
        """unnormalised log-likelihood of every state"""
        return self.E * float(y) + self.F * t

    def pair(self, y, t):
        """what the log-likelihood of measurement t > 0 gains for every
        (previous state, state)"""
        if y is None or self.D is None or t == 0:
            return numpy.zeros((self.K, self.K))
        return self.D * (0.5 + 0.25 * float(y) - 0.1 * t)

    def logfrom_y(self, y, t):
        """p(x_t|y_t) for the filters proposing from the measurement"""
        L = self.Yq * float(y) + 0.5 * self.F * t
        return L - logsumexp(L)

    def logfirst(self, u, y, t):
        return self.Q * 0.5 * float(y) - 0.1 * t + 0.2 * numpy.arange(self.K)

    def logqsir(self, u, y, t):
        """SIR proposal q(x'|x,u,y,t): (K,K)"""
        L = 0.7 * self.logP(u, t) + 0.5 * self.E[None, :] * float(y) + 0.2 * self.Q[None, :]
        return L - logsumexp(L, axis=1)[:, None]

    def logqsmooth(self, prev, nxt, y, t):
        """proposal of the smoothers: q(x_t | prev, next, y, t), arrays of ints
        (or None) -> (n, K)"""
        n = len(prev) if prev is not None else len(nxt)
        L = numpy.tile(self.Q + 0.1 * t * self.E, (n, 1))
        if prev is not None:
            L[numpy.arange(n), prev] += self.G
        if nxt is not None:
            L[numpy.arange(n), nxt] += self.H
        return L - logsumexp(L, axis=1)[:, None]


def categorical(logp):
    """one draw per row"""
    p = numpy.exp(logp - logp.max(axis=1, keepdims=True))
    c = numpy.cumsum(p, axis=1)
    u = numpy.random.uniform(size=len(p)) * c[:, -1]
    return numpy.minimum((u[:, None] >= c).sum(axis=1), p.shape[1] - 1)


def make_model(case, kind="markov"):
    import pyparticleest.interfaces as I
    h = HMM(case)
    K = h.K

    def s(part):
        return numpy.asarray(part)[:, 0].astype(int)

    def col(a):
        return numpy.asarray(a, dtype=float).reshape(-1, 1)

    class Base(object):
        hmm = h

        def create_initial_estimate(self, N):
            return col(categorical(numpy.tile(h.logpi(), (N, 1))))

        def logp_xnext(self, particles, next_part, u, t):
            return h.logP(u, t)[s(particles), s(next_part)]

        def measure(self, particles, y, t):
            return h.loglik(y, t)[s(particles)]

    class Markov(Base, I.ParticleFiltering, I.AuxiliaryParticleFiltering, I.FFBSiRS,
                 I.FFProposeFromMeasure, I.SampleProposer):
        def sample_process_noise(self, particles, u, t):
            return categorical(h.logP(u, t)[s(particles)])

        def update(self, particles, u, t, noise):
            particles[:, 0] = noise
            return particles

        def eval_1st_stage_weights(self, particles, u, y, t):
            return h.logfirst(u, y, t)[s(particles)]

        def logp_xnext_max(self, particles, u, t):
            # a valid bound (not necessarily attained)
            return numpy.max(h.logP(u, t)) + 0.1

        def propose_from_y(self, N, y, t):
            return col(categorical(numpy.tile(h.logfrom_y(y, t), (N, 1))))

        def eval_logp_x0(self, particles, t):
            return h.logpi()[s(particles)]

        def _ctx(self, ptraj, anc, future_trajs, find, yt, cur_ind):
            prev = None if ptraj is None else s(ptraj[-1].pa.part)[anc]
            nxt = None if future_trajs is None else s(future_trajs[0].pa.part)[find]
            return prev, nxt, yt[cur_ind]

        def propose_smooth(self, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
            prev, nxt, y = self._ctx(ptraj, anc, future_trajs, find, yt, cur_ind)
            return col(categorical(h.logqsmooth(prev, nxt, y, tt[cur_ind])))

        def logp_proposal(self, prop_part, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
            prev, nxt, y = self._ctx(ptraj, anc, future_trajs, find, yt, cur_ind)
            return h.logqsmooth(prev, nxt, y, tt[cur_ind])[numpy.arange(len(prop_part)), s(prop_part)]

    class Memory(Markov):
        def measure_full(self, particles, traj, uvec, yvec, tvec, ancestors):
            lw = h.loglik(yvec[-1], tvec[-1])[s(particles)]
            if len(tvec) > 1:
                lw = lw + h.pair(yvec[-1], tvec[-1])[s(traj[-1].pa.part)[ancestors], s(particles)]
            return lw

        def logp_xnext_full(self, part, past_trajs, pind, future_trajs, find, ut, yt, tt, cur_ind):
            nxt = s(future_trajs[0].pa.part)[find]
            return (h.logP(ut[cur_ind], tt[cur_ind]) + h.pair(yt[cur_ind + 1], tt[cur_ind + 1]))[s(part), nxt]

        def logp_xnext_max_full(self, part, past_trajs, pind, uvec, yvec, tvec, cur_ind):
            return numpy.max(h.logP(uvec[cur_ind], tvec[cur_ind]) + h.pair(yvec[cur_ind + 1], tvec[cur_ind + 1]))

    class Sir(Base, I.SIR, I.FFBSi):
        def qsample(self, particles, u, y, t):
            return col(categorical(h.logqsir(u, y, t)[s(particles)]))

        def logp_q(self, particles, next_part, u, y, t):
            return h.logqsir(u, y, t)[s(particles), s(next_part)]

    return {"markov": Markov if h.D is None else Memory, "sir": Sir}[kind]()


def posterior(h, data, upto=None, target="lik"):
    """Exact posterior over state sequences given the measurements up to index
    ``upto`` (default all).  Returns (sequences (n,T), probabilities)."""
    u, y = data["u"], [data["first"]] + list(data["y"])
    T = len(y)
    upto = T - 1 if upto is None else upto
    seqs = numpy.array(list(itertools.product(range(h.K), repeat=T)), dtype=int)
    if target == "lik":
        lp = h.logpi()[seqs[:, 0]].copy()
    else:
        lp = (h.logfrom_y(y[0], 0) if y[0] is not None else h.logpi())[seqs[:, 0]].copy()
    for t in range(T):
        if t > 0:
            lp += h.logP(u[t - 1], t - 1)[seqs[:, t - 1], seqs[:, t]]
        if y[t] is not None and t <= upto:
            if target == "lik":
                lp += h.loglik(y[t], t)[seqs[:, t]]
                if t > 0:
                    lp += h.pair(y[t], t)[seqs[:, t - 1], seqs[:, t]]
            elif t > 0:
                lp += h.logfrom_y(y[t], t)[seqs[:, t]]
    p = numpy.exp(lp - lp.max())
    return seqs, p / p.sum()


def marginal(seqs, p, t, K):
    return numpy.bincount(seqs[:, t], weights=p, minlength=K)


def seq_code(seqs, K):
    code = numpy.zeros(len(seqs), dtype=int)
    for t in range(seqs.shape[1]):
        code = code * K + seqs[:, t]
    return code


def run_filter(model, data, N, filt, res, opts=None, pre=False):
    from pyparticleest.filter import ParticleTrajectory
    kw = {"T": len(data["y"]) + 1} if pre else {}
    pt = ParticleTrajectory(model, N, res, filter=filt, filter_options=opts or {}, **kw)
    if data["first"] is not None:
        pt.measure(data["first"])
    for u, y in zip(data["u"], data["y"]):
        pt.forward(u, y)
    return pt


def states(traj):
    """(T, M) integer states of a (smoothed) trajectory"""
    return numpy.array([numpy.asarray(traj[t].pa.part)[:, 0].astype(int) for t in range(len(traj))])
