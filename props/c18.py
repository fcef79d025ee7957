"""C18: Rao-Blackwellised smoothing of mixed linear/nonlinear Gaussian models."""
import numpy
from hypothesis import strategies as st
from vlib.core import check, expect
from vlib import strat, models, gauss
from vlib.gauss import close
from props.c12 import BOTH
from props.c15 import whitened_ok
from props.c17 import labels, TOL

METHODS = ("full", "rs", "rsas", "mcmc", "ancestor", "mhips", "mhbp")
OPTS = {"rs": {"R": 3}, "mcmc": {"R": 3}, "mhips": {"R": 2}, "mhbp": {"R": 2}}


@st.composite
def smooth_case(draw):
    c = draw(models.mlnlg_case(max_steps=4, Ns=(1, 2, 4, 6), certain=True))
    c["smoother"] = draw(st.sampled_from(METHODS))
    c["M"] = draw(strat.oneof(1, 2, 4))
    c["res"] = draw(strat.oneof(0.0, 0.5, 1.0))
    return c


def simulate(tr, m, case, N, M, smoother, opts=None, L=None):
    L = L or models.lib()
    y = ([tr.y0] if case["first"] else []) + tr.y
    sim = L.simulator.Simulator(m, u=tr.u, y=y)
    sim.simulate(N, M, filter="PF", smoother=smoother, smoother_options=opts,
                 meas_first=case["first"], res=case["res"])
    return sim


def check_rts(sest, tr, lx_extra_ok=False):
    """sest (T, M, D): [xi, z, P, Mz]"""
    T, M, D = sest.shape
    lxi, lz = tr.lxi, tr.lz
    for j in range(M):
        xis = [sest[t, j, :lxi] for t in range(T)]
        J, zs, obs = tr.chain(xis)
        o = [a[-2:] for a in obs]
        for t in range(T):
            z, P = J.condition([zs[t]], o)
            expect(close(sest[t, j, lxi:lxi + lz], z, **TOL), "smoothed mean of z at %d: %s, exact given the trajectory %s",
                   t, sest[t, j, lxi:lxi + lz].tolist(), z.tolist())
            s = lxi + lz
            expect(close(sest[t, j, s:s + lz * lz], P.ravel(), **TOL), "smoothed covariance of z at %d: %s, exact %s",
                   t, sest[t, j, s:s + lz * lz].tolist(), P.ravel().tolist())
            if t + 1 < T:
                _m, C = J.condition([zs[t], zs[t + 1]], o)
                expect(close(sest[t, j, s + lz * lz:s + 2 * lz * lz], C[:lz, lz:].ravel(), **TOL),
                       "cross covariance of z at %d and %d: %s, exact %s", t, t + 1,
                       sest[t, j, s + lz * lz:s + 2 * lz * lz].tolist(), C[:lz, lz:].ravel().tolist())


@check("C18", smooth_case, quick=350, thorough=7000, configs=BOTH, shards=2,
       rule="at least two steps and a measurement", need=METHODS + ("corr", "missing", "rb"))
def trajectories_carry_the_smoothed_linear_states(case, rec):
    """Whatever the smoother, every trajectory reports mean, covariance and
    one-step cross covariance of the linear states given its whole nonlinear
    trajectory and all measurements."""
    tr = models.MLNLGTruth(case)
    m = models.mlnlg_model(tr)
    labels(case, rec)
    rec.label(case["smoother"])
    numpy.random.seed(case["seed"])
    sim = simulate(tr, m, case, case["N"], case["M"], case["smoother"], OPTS.get(case["smoother"]))
    sest = sim.get_smoothed_estimates()
    T = case["n"] + 1
    rec.nontrivial = T > 2 and any(v is not None for v in [tr.y0] + tr.y)
    expect(sest.shape == (T, case["M"], tr.lxi + tr.lz + 2 * tr.lz ** 2), "smoothed estimates of shape %s", sest.shape)
    check_rts(sest, tr)
    if case["smoother"] not in ("mhips", "mhbp"):
        # the nonlinear parts are taken from the filter's particles
        est, _w = sim.get_filtered_estimates()
        for t in range(T):
            have = {tuple(a) for a in est[t, :, :tr.lxi].tolist()}
            for a in sest[t, :, :tr.lxi].tolist():
                expect(tuple(a) in have, "xi at %d is not one of the filter's particles", t)


class Stub(object):
    def __init__(self, part):
        self.pa = type("PA", (), {"part": part})()
        self.ancestors = numpy.arange(len(part))


@st.composite
def law_case(draw):
    c = draw(models.mlnlg_case(min_steps=1, max_steps=2, Ns=(2,)))
    c["last"] = draw(st.integers(0, 3)) == 0
    return c


def sampled_z_law(m, tr, case, part, xi, z, P, u, t, nx, rec, logq=None, width=None, joint=None):
    """sample_smooth draws z_t from its law given the particle and the future"""
    M = 1000
    lxi, lz = tr.lxi, tr.lz
    idx = numpy.arange(M) % 2
    find = (numpy.arange(M) // 2) % 2
    keep = part.copy()
    fut = None if case["last"] else [Stub(nx)]
    args = dict(ptraj=None, anc=None, future_trajs=fut, find=None if case["last"] else find,
                ut=[u] * (t + 1), yt=[None] * (t + 2), tt=list(range(t + 2)), cur_ind=t)
    big = part[idx]
    kept = big.copy()
    res = m.sample_smooth(part=big, **args)
    expect(numpy.array_equal(big, kept) and numpy.array_equal(part, keep), "sample_smooth modified the particles")
    expect(len(res) == M, "sample_smooth returns %d rows for %d particles", len(res), M)
    expect(numpy.array_equal(res[:, :lxi], xi[idx]), "sample_smooth changes the nonlinear states")
    W = numpy.zeros((M, lz))
    law = {}
    for k in range(M):
        key = (int(idx[k]), int(find[k]))
        if key not in law:
            law[key] = joint(*key)
        mean, cov = law[key]
        W[k] = numpy.linalg.solve(numpy.linalg.cholesky(cov), res[k, lxi:lxi + lz] - mean)
    whitened_ok(W, "sampled linear states")


@check("C18", law_case, quick=60, thorough=900, shards=3, rule="not at the last time index")
def linear_states_are_sampled_given_the_future(case, rec):
    tr = models.MLNLGTruth(case)
    m = models.mlnlg_model(tr)
    from props.c17 import particles
    part, xi, z, P, u, t = particles(tr, m, case)
    labels(case, rec)
    rec.nontrivial = not case["last"]
    numpy.random.seed(case["seed"])
    nx = models.mat(tr.rng, 2, tr.lxi + tr.lz, scale=2.0)

    def joint(i, k):
        J = gauss.Joint()
        zv = J.noise(z[i], P[i])
        xn = zv.lin(tr.A(xi[i], u, t)) + tr.f(xi[i], u, t) + J.noise(numpy.zeros(tr.lxi + tr.lz), tr.Q(xi[i], u, t))
        return J.condition([zv], [] if case["last"] else [(xn, nx[k])])
    sampled_z_law(m, tr, case, part, xi, z, P, u, t, nx, rec, joint=joint)


# ---------------------------------------------------------------------------
# end to end: a linear model in disguise, whose exact smoother is known
# ---------------------------------------------------------------------------
class LinearTruth(models.MLNLGTruth):
    """xi enters f_xi, f_z and h linearly: the whole model is linear."""

    def __init__(self, c):
        super(LinearTruth, self).__init__(c)
        r = numpy.random.RandomState(c["seed"] + 1)
        self.F = {"fxi": models.mat(r, self.lxi, self.lxi, scale=0.7),
                  "fz": models.mat(r, self.lz, self.lxi, scale=0.7),
                  "h": models.mat(r, self.ly, self.lxi, scale=0.7)}
        # measurements the model itself could have produced: the bias of a
        # particle smoother with few particles is then small
        zero = numpy.zeros(self.lxi)
        # (noises of half the size: nothing surprising)
        x = numpy.concatenate((r.multivariate_normal(self.xi0, self.Pxi0 / 4), r.multivariate_normal(self.z0, self.P0 / 4)))
        for t in range(len(self.y) + 1):
            if t:
                u = self.u[t - 1]
                G = numpy.hstack((numpy.vstack((self.F["fxi"], self.F["fz"])), self.A(zero, u, t - 1)))
                x = G.dot(x) + self.f(zero, u, t - 1).ravel() + \
                    r.multivariate_normal(numpy.zeros(len(x)), self.Q(zero, u, t - 1) / 4)
            C, h, R = self.meas(zero, t)
            y = (numpy.hstack((self.F["h"], C)).dot(x) + h.ravel() +
                 r.multivariate_normal(numpy.zeros(self.ly), R / 4)).reshape((-1, 1))
            if t == 0:
                self.y0 = None if self.y0 is None else y
            else:
                self.y[t - 1] = None if self.y[t - 1] is None else y

    def whole(self, k, xi, u, t):
        if k in self.F:
            b, d = self.b[k]
            x = numpy.asarray(xi, dtype=float).reshape((-1, 1))
            return b + self.F[k].dot(x) + unit(u, t) * d
        return super(LinearTruth, self).whole(k, xi, u, t)

    def exact(self, upto=None):
        """smoothed mean of (xi_t, z_t) and of the products xi_t z_t"""
        J = gauss.Joint()
        n = self.lxi + self.lz
        P0 = numpy.zeros((n, n))
        P0[:self.lxi, :self.lxi] = self.Pxi0
        P0[self.lxi:, self.lxi:] = self.P0
        xs = [J.noise(numpy.concatenate((self.xi0, self.z0)), P0)]
        obs = []
        ys = [self.y0] + self.y
        zero = numpy.zeros(self.lxi)
        for t in range(len(ys)):
            if t:
                G = numpy.hstack((numpy.vstack((self.F["fxi"], self.F["fz"])), self.A(zero, self.u[t - 1], t - 1)))
                xs.append(xs[-1].lin(G) + self.f(zero, self.u[t - 1], t - 1) +
                          J.noise(numpy.zeros(n), self.Q(zero, self.u[t - 1], t - 1)))
            if ys[t] is not None and (upto is None or t <= upto):
                C, h, R = self.meas(zero, t)
                obs.append((xs[t].lin(numpy.hstack((self.F["h"], C))) + h + J.noise(numpy.zeros(self.ly), R), ys[t]))
        return J, xs, obs


def unit(u, t):
    return numpy.sin(0.9 * t + models.unum(u))


@st.composite
def linear_case(draw):
    c = draw(models.mlnlg_case(min_steps=2, max_steps=3, Ns=(150,), deps=("const", "time"), noC=False))
    c["lxi"], c["ly"] = 1, 1
    c["rows"] = None
    c["lz"] = draw(strat.oneof(1, 1, 2))
    for k in ("fxi", "fz", "h"):
        c["dep"][k] = "part"
    c["rb"] = False
    c["res"] = draw(strat.oneof(0.0, 0.67, 1.0))
    return c


REPS = 40
TQ = 8.2      # t quantile with 39 degrees of freedom, p ~ 5e-10
SLACK = 0.06


def surprise(tr, case, J, xs, obs):
    """is some xi_t, given all data, far out in its distribution given only the
    data of earlier indices (from which the particle filter draws it)?"""
    ys = [tr.y0] + list(tr.y)
    n = 0
    for t in range(len(xs)):
        (m0, P0), (m1, P1) = J.condition([xs[t]], obs[:n]), J.condition([xs[t]], obs)
        k = tr.lxi
        s0 = numpy.sqrt(numpy.diag(P0)[:k])
        if (numpy.abs(m1 - m0)[:k] > 1.2 * s0).any() or (numpy.sqrt(numpy.diag(P1)[:k]) < 0.4 * s0).any():
            return True
        n += ys[t] is not None
    return False


def end_to_end(case, rec, tr, m, method, opts, N, M):
    """moments of xi_t and its covariance with the smoothed means of z_t,
    averaged over runs, against the exact smoother of the linear model"""
    J, xs, obs = tr.exact()
    lz = tr.lz
    rec.nontrivial = len(obs) > 1
    if surprise(tr, case, J, xs, obs):
        # few particles reach the posterior: the error of any particle smoother
        # is heavy tailed and no bound from repetitions is valid
        rec.nontrivial = False
        rec.label("surprising data")
        return
    rec.label("corr" if case.get("corr") else "")
    numpy.random.seed(case["seed"])
    T = case["n"] + 1
    est = numpy.zeros((REPS, T, 2 + 2 * lz))
    want = numpy.zeros((T, 2 + 2 * lz))
    norm = []
    for t in range(T):
        mu, P = J.condition([xs[t]], obs)
        sd = numpy.sqrt(numpy.diag(P))
        want[t] = numpy.concatenate((mu / sd, [1.0], P[0, 1:] / (sd[0] * sd[1:])))
        norm.append((mu, sd))
    for r in range(REPS):
        s = simulate(tr, m, case, N, M, method, opts).get_smoothed_estimates()
        for t in range(T):
            mu, sd = norm[t]
            x = s[t][:, :1 + lz]
            e = (x - mu) / sd
            est[r, t] = numpy.concatenate((x.mean(axis=0) / sd, [numpy.mean(e[:, 0] ** 2)],
                                           (e[:, :1] * e[:, 1:]).mean(axis=0)))
    mean = est.mean(axis=0)
    sd = est.std(axis=0, ddof=1) / numpy.sqrt(REPS)
    bad = numpy.abs(mean - want) > TQ * sd + SLACK
    expect(not bad.any(), "%s: smoothed moments of the whole state %s, exact %s", method,
           numpy.round(mean, 3).tolist(), numpy.round(want, 3).tolist())


def _register():
    for meth, opts, N, M in (("full", None, 100, 20), ("mhips", {"R": 8}, 60, 15), ("mhbp", {"R": 8}, 60, 15)):
        def fn(case, rec, meth=meth, opts=opts, N=N, M=M):
            tr = LinearTruth(case)
            end_to_end(case, rec, tr, models.mlnlg_model(tr), meth, opts, N, M)
        fn.__name__ = "linear_model_" + meth
        check("C18", linear_case, quick=2, thorough=40, shards=2, rule="at least two measurements")(fn)


_register()
