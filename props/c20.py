"""C20: hierarchical (conditionally linear) models."""
import numpy
from hypothesis import strategies as st
from vlib.core import check, expect
from vlib import strat, models, gauss
from vlib.gauss import close, logpdf
from props.c12 import BOTH
from props.c17 import lineage, TOL
from props import c18

OPTS = {"rs": {"R": 3}, "mcmc": {"R": 3}}
METHODS = ("full", "rs", "rsas", "mcmc", "ancestor")


@st.composite
def case_st(draw):
    c = draw(models.hier_case(max_steps=4, Ns=(1, 2, 4, 6)))
    c["res"] = draw(strat.oneof(0.0, 0.0, 0.7, 1.0))
    c["M"] = draw(strat.oneof(1, 2, 4))
    c["smoother"] = draw(st.sampled_from(METHODS))
    if c["smoother"] in ("rs", "rsas"):
        c["rs"] = True
    return c


def labels(case, rec):
    rec.label("missing" if any(case["miss"]) else "", "first" if case["first"] else "",
              "ly%d" % case["ly"], "lz%d" % case["lz"], "lxi%d" % case["lxi"],
              "RSBase" if case["rs"] else "Base")
    for k, v in case["dep"].items():
        rec.label("%s-%s" % (k, v))


def simulate(tr, m, case, N, M, smoother, opts=None):
    L = models.lib()
    y = ([tr.y0] if case["first"] else []) + tr.y
    sim = L.simulator.Simulator(m, u=tr.u, y=y)
    sim.simulate(N, M, filter="PF", smoother=smoother, smoother_options=opts,
                 meas_first=case["first"], res=case["res"])
    return sim


@check("C20", case_st, quick=300, thorough=6000, configs=BOTH, shards=2,
       rule="at least two steps and a measurement", need=METHODS + ("missing", "first", "RSBase", "Base"))
def filter_and_smoother(case, rec):
    """Every filter particle carries the exact law of the linear states given
    its lineage, its weight the exact likelihood; every smoothed trajectory
    carries their exact smoothed law."""
    tr = models.HierTruth(case)
    m = models.hier_model(tr)
    labels(case, rec)
    rec.label(case["smoother"])
    numpy.random.seed(case["seed"])
    sim = simulate(tr, m, case, case["N"], case["M"], case["smoother"], OPTS.get(case["smoother"]))
    traj = sim.pt.traj
    ys = [tr.y0] + tr.y
    T = case["n"] + 1
    lxi, lz = tr.lxi, tr.lz
    rec.nontrivial = T > 2 and any(v is not None for v in ys)
    for t in range(T):
        part = traj[t].pa.part
        for i in range(case["N"]):
            xis = lineage(traj[:t + 1], i, lxi)
            J, zs, obs = tr.chain(xis, ys=ys[:t + 1])
            z, P = J.condition([zs[t]], [(o[2], o[3]) for o in obs])
            expect(close(part[i, lxi:lxi + lz], z, **TOL), "mean of z at %d given the lineage: %s, exact %s",
                   t, part[i, lxi:lxi + lz].tolist(), z.tolist())
            expect(close(part[i, lxi + lz:lxi + lz + lz * lz], P.ravel(), **TOL),
                   "covariance of z at %d given the lineage: %s, exact %s", t,
                   part[i, lxi + lz:lxi + lz + lz * lz].tolist(), P.ravel().tolist())
            if ys[t] is not None and case["res"] == 0.0:
                a = int(traj[t].ancestors[i]) if t else 0
                base = traj[t - 1].pa.w[a] if t else -numpy.log(case["N"])
                got = traj[t].pa.w[i] + traj[t].pa.w_offset - base
                now = [(o[2], o[3]) for o in obs if o[0] == t]
                bef = [(o[2], o[3]) for o in obs if o[0] != t]
                want = J.logpdf(now, bef) + tr.loglik_xi(xis[t], ys[t], t)
                expect(abs(got - want) <= 1e-6 * (1 + abs(want)), "log-weight change at %d: %r, exact %r", t, got, want)
    sest = sim.get_smoothed_estimates()
    expect(sest.shape == (T, case["M"], lxi + lz + 2 * lz ** 2), "smoothed estimates of shape %s", sest.shape)
    for j in range(case["M"]):
        xis = [sest[t, j, :lxi] for t in range(T)]
        for t in range(T):
            have = {tuple(a) for a in traj[t].pa.part[:, :lxi].tolist()}
            expect(tuple(xis[t].tolist()) in have, "xi at %d is not one of the filter's particles", t)
        J, zs, obs = tr.chain(xis)
        o = [a[-2:] for a in obs]
        for t in range(T):
            z, P = J.condition([zs[t]], o)
            k = lxi + lz
            expect(close(sest[t, j, lxi:k], z, **TOL), "smoothed mean of z at %d: %s, exact %s", t,
                   sest[t, j, lxi:k].tolist(), z.tolist())
            expect(close(sest[t, j, k:k + lz * lz], P.ravel(), **TOL), "smoothed covariance of z at %d: %s, exact %s",
                   t, sest[t, j, k:k + lz * lz].tolist(), P.ravel().tolist())
            if t + 1 < T:
                _m, C = J.condition([zs[t], zs[t + 1]], o)
                expect(close(sest[t, j, k + lz * lz:], C[:lz, lz:].ravel(), **TOL),
                       "cross covariance of z at %d and %d: %s, exact %s", t, t + 1,
                       sest[t, j, k + lz * lz:].tolist(), C[:lz, lz:].ravel().tolist())


def particles(tr, m, N):
    rng = tr.rng
    xi = models.mat(rng, N, tr.lxi, scale=2.0)
    unit = tr.c.get("unit", 1.0)
    z = models.mat(rng, N, tr.lz, scale=2.0)
    P = numpy.array([models.spd(rng, tr.lz) for _ in range(N)])
    xi, z, P = models.some_copies(rng, xi, z * unit, P * unit ** 2)
    part = numpy.zeros((N, tr.lxi + tr.lz + 2 * tr.lz ** 2))
    m.set_states(part, xi, z, P)
    return part, xi, z, P


@check("C20", case_st, quick=300, thorough=6000, configs=BOTH, rule="several particles with particle dependent matrices")
def transition_densities(case, rec):
    tr = models.HierTruth(case)
    m = models.hier_model(tr)
    labels(case, rec)
    N, lxi, lz = case["N"], tr.lxi, tr.lz
    part, xi, z, P = particles(tr, m, N)
    keep = part.copy()
    t = int(tr.rng.randint(0, 5))
    u = float(tr.rng.uniform(-1, 1)) if case["u"] else None
    rec.nontrivial = N > 1 and "part" in case["dep"].values()
    nx = numpy.zeros((N, part.shape[1]))
    nx[:, :lxi + lz] = models.mat(tr.rng, N, lxi + lz, scale=2.0)

    def dens(i, k):
        A, f, Q = (tr.get(a, xi[i], u, t) for a in ("Az", "fz", "Qz"))
        e = nx[k, lxi:lxi + lz] - A.dot(z[i]) - f.ravel()
        return tr.logp_xi(xi[i], nx[k, :lxi], u, t) + logpdf(e, A.dot(P[i]).dot(A.T) + Q)

    def same(name, got, want):
        expect(numpy.size(got) == N and close(numpy.ravel(got), want, **TOL), "%s gives %s, exact %s", name,
               numpy.ravel(got).tolist(), numpy.ravel(want).tolist())
    same("logp_xnext", m.logp_xnext(part, nx, u, t), [dens(i, i) for i in range(N)])
    same("logp_xnext to one state", m.logp_xnext(part, nx[:1], u, t), [dens(i, 0) for i in range(N)])
    find = numpy.arange(N)[::-1]
    same("logp_xnext_full", m.logp_xnext_full(part, None, None, [c18.Stub(nx)], find, [u] * (t + 1), None,
                                              list(range(t + 1)), t), [dens(i, find[i]) for i in range(N)])
    expect(numpy.array_equal(part, keep), "evaluating densities modified the particles")
    noise = models.mat(tr.rng, N, lxi)
    p = m.update(part.copy(), u, t, noise)
    for i in range(N):
        A, f, Q = (tr.get(a, xi[i], u, t) for a in ("Az", "fz", "Qz"))
        expect(close(p[i, :lxi], tr.fx(xi[i], u, t) + noise[i], **TOL) and
               close(p[i, lxi:lxi + lz], A.dot(z[i]) + f.ravel(), **TOL) and
               close(p[i, lxi + lz:lxi + lz + lz * lz], (A.dot(P[i]).dot(A.T) + Q).ravel(), **TOL),
               "update gives %s", p[i].tolist())


@st.composite
def law_case(draw):
    c = draw(models.hier_case(min_steps=1, max_steps=2, Ns=(2,)))
    c["last"] = draw(st.integers(0, 3)) == 0
    return c


@check("C20", law_case, quick=60, thorough=900, shards=2, rule="not at the last time index")
def linear_states_are_sampled_given_the_future(case, rec):
    tr = models.HierTruth(case)
    m = models.hier_model(tr)
    labels(case, rec)
    rec.nontrivial = not case["last"]
    part, xi, z, P = particles(tr, m, 2)
    t = int(tr.rng.randint(0, 5))
    u = float(tr.rng.uniform(-1, 1)) if case["u"] else None
    nx = models.mat(tr.rng, 2, tr.lxi + tr.lz, scale=2.0)
    numpy.random.seed(case["seed"])

    def joint(i, k):
        J = gauss.Joint()
        zv = J.noise(z[i], P[i])
        A, f, Q = (tr.get(a, xi[i], u, t) for a in ("Az", "fz", "Qz"))
        zn = zv.lin(A) + f + J.noise(numpy.zeros(tr.lz), Q)
        return J.condition([zv], [] if case["last"] else [(zn, nx[k, tr.lxi:])])
    c18.sampled_z_law(m, tr, case, part, xi, z, P, u, t, nx, rec, joint=joint)


class LinearHier(models.HierTruth):
    """the nonlinear state is linear too, and enters fz and h linearly"""

    def __init__(self, c):
        super(LinearHier, self).__init__(c)
        r = numpy.random.RandomState(c["seed"] + 1)
        self.Fl = {"fz": models.mat(r, self.lz, self.lxi, scale=0.7), "h": models.mat(r, self.ly, self.lxi, scale=0.7)}
        n = self.lxi + self.lz
        x = numpy.concatenate((r.multivariate_normal(self.xi0, self.Pxi0 / 4), r.multivariate_normal(self.z0, self.P0 / 4)))
        for t in range(len(self.y) + 1):
            if t:
                G, g, Q = self.dyn(self.u[t - 1], t - 1)
                x = G.dot(x) + g + r.multivariate_normal(numpy.zeros(n), Q / 4)
            C, h, R = self.measl(t)
            y = C.dot(x) + h + r.multivariate_normal(numpy.zeros(len(h)), R / 4)
            if t == 0:
                self.y0 = None if self.y0 is None else y
            else:
                self.y[t - 1] = None if self.y[t - 1] is None else y

    def whole(self, k, xi, u, t):
        if k in ("fz", "h"):
            b, d = self.b[k]
            return b + self.Fl[k].dot(numpy.asarray(xi, dtype=float).reshape((-1, 1))) + c18.unit(u, t) * d
        return super(LinearHier, self).whole(k, xi, u, t)

    def fx(self, xi, u, t):
        return self.F.dot(xi) + 0.2 * t + models.unum(u)

    def dyn(self, u, t):
        o = numpy.zeros(self.lxi)
        G = numpy.zeros((self.lxi + self.lz,) * 2)
        Q = numpy.zeros_like(G)
        G[:self.lxi, :self.lxi] = self.F
        G[self.lxi:, :self.lxi] = self.Fl["fz"]
        G[self.lxi:, self.lxi:] = self.get("Az", o, u, t)
        Q[:self.lxi, :self.lxi] = self.Qx
        Q[self.lxi:, self.lxi:] = self.get("Qz", o, u, t)
        return G, numpy.concatenate((self.fx(o, u, t), self.get("fz", o, u, t).ravel())), Q

    def measl(self, t):
        o = numpy.zeros(self.lxi)
        C = numpy.zeros((1 + self.ly, self.lxi + self.lz))
        C[0, 0] = 1.0
        C[1:, :self.lxi] = self.Fl["h"]
        C[1:, self.lxi:] = self.get("C", o, None, t)
        R = numpy.zeros((1 + self.ly,) * 2)
        R[0, 0] = self.Rx
        R[1:, 1:] = self.get("R", o, None, t)
        return C, numpy.concatenate(([0.1 * t], self.get("h", o, None, t).ravel())), R

    def exact(self):
        J = gauss.Joint()
        n = self.lxi + self.lz
        P0 = numpy.zeros((n, n))
        P0[:self.lxi, :self.lxi] = self.Pxi0
        P0[self.lxi:, self.lxi:] = self.P0
        xs = [J.noise(numpy.concatenate((self.xi0, self.z0)), P0)]
        obs = []
        ys = [self.y0] + self.y
        for t in range(len(ys)):
            if t:
                G, g, Q = self.dyn(self.u[t - 1], t - 1)
                xs.append(xs[-1].lin(G) + g + J.noise(numpy.zeros(n), Q))
            if ys[t] is not None:
                C, h, R = self.measl(t)
                obs.append((xs[t].lin(C) + h + J.noise(numpy.zeros(len(h)), R), ys[t]))
        return J, xs, obs

    def rb(self, xi):
        return self.z0.reshape((-1, 1)), self.P0


@st.composite
def linear_case(draw):
    c = draw(models.hier_case(min_steps=2, max_steps=3))
    c["lxi"], c["ly"], c["lz"] = 1, 1, draw(strat.oneof(1, 1, 2))
    c["rows"] = None
    for k in c["dep"]:
        c["dep"][k] = draw(strat.oneof("const", "time"))
    c["dep"]["fz"] = c["dep"]["h"] = "part"
    c["rs"] = True
    c["res"] = draw(strat.oneof(0.0, 0.67, 1.0))
    return c


def _register():
    for meth, opts, N, M in (("full", None, 60, 15), ("rs", {"R": 200}, 60, 15), ("mhips_reduced", {"R": 8}, 60, 15)):
        def fn(case, rec, meth=meth, opts=opts, N=N, M=M):
            tr = LinearHier(dict(case, wide=False) if meth == "mhips_reduced" else case)
            c18.end_to_end(case, rec, tr, models.hier_model(tr), meth, opts, N, M)
        fn.__name__ = "linear_model_" + meth
        check("C20", linear_case, quick=2, thorough=40, shards=2, rule="at least two measurements")(fn)


_register()
