"""Parametric versions of the random models: matrices depend linearly, and
covariances quadratically, on a parameter vector theta.  The oracle is the
expectation of the complete-data log density under the exact smoothed law at
the current parameters, given each nonlinear trajectory."""
import copy
import importlib
import numpy
from hypothesis import strategies as st
from vlib import strat, models, gauss
from vlib.models import mat, spd, unum

LKEYS = ("A", "f", "Q", "C", "h", "R", "z0", "P0")
NKEYS = ("f", "Q", "g", "R", "x0", "P0")


@st.composite
def ppart(draw, keys):
    """which matrices depend on which of the parameters"""
    p = draw(st.integers(1, 3))
    groups = draw(st.lists(st.sampled_from(keys), min_size=1, max_size=len(keys), unique=True))
    return dict(p=p, par=sorted(groups), theta=[draw(st.integers(-8, 8)) / 8.0 for _ in range(p)],
                pseed=draw(strat.seeds),
                corr=draw(strat.oneof(False, False, True)))


class Par(object):
    """parametric increments"""

    def init_par(self, pc, shapes, covs, base=None):
        self.pc = pc
        self.p = pc["p"]
        self.theta = numpy.array(pc["theta"], dtype=float)
        rng = numpy.random.RandomState(pc["pseed"])
        self.PG = {}
        self.only_corr = set()     # covariances of which parameters change correlations only
        base = base or {}
        for k, sh in list(shapes.items()) + [(k, None) for k in covs]:
            if k not in pc["par"]:
                continue
            if sh is None and pc.get("corr") and k in base and covs[k] > 1:
                self.only_corr.add(k)
            g = []
            for _ in range(self.p):
                m = self.cov(rng, k, covs[k], base.get(k)) if sh is None else mat(rng, *sh)
                g.append(m * (0.0 if rng.rand() < 0.2 else 1.0))
            if not any(numpy.any(m) for m in g):
                g[0] = self.cov(rng, k, covs[k], base.get(k)) if sh is None else mat(rng, *sh)
            self.PG[k] = g
        self.covs = covs

    def cov(self, rng, k, n, S0):
        S = spd(rng, n)
        if k not in self.only_corr:
            return S
        # (stays positive definite whatever the parameters)
        S = S - numpy.diag(numpy.diag(S))
        return S * 0.6 * numpy.linalg.eigvalsh(S0)[0] / (1.5 * self.p * numpy.max(numpy.abs(numpy.linalg.eigvalsh(S))))

    def at(self, theta):
        o = copy.copy(self)
        o.theta = numpy.array(theta, dtype=float).reshape(-1)
        return o

    def inc(self, k, mod=1.0):
        if k not in self.PG:
            return 0.0
        if k in self.covs:
            fun = numpy.sin if k in self.only_corr else numpy.square
            return mod * sum(fun(th) * S for th, S in zip(self.theta, self.PG[k]))
        return mod * sum(th * g for th, g in zip(self.theta, self.PG[k]))

    def dinc(self, k, mod=1.0):
        """gradient: array (p, ...)"""
        if k in self.covs:
            fun = numpy.cos if k in self.only_corr else lambda th: 2 * th
            return numpy.array([mod * fun(th) * S for th, S in zip(self.theta, self.PG[k])])
        return numpy.array([mod * g for g in self.PG[k]])

    def cutg(self, k, g, t):
        return numpy.array([self.cut(k, v, t) for v in g])


# ---------------------------------------------------------------------------
class LTVPar(models.LTVTruth, Par):
    def __init__(self, c):
        models.LTVTruth.__init__(self, dict(c, unit=1.0))
        lz, ly = self.lz, self.ly
        self.z0b, self.P0b = self.z0, self.P0
        if c.get("certain"):
            c["pp"]["par"] = [k for k in c["pp"]["par"] if k not in ("z0", "P0")] or ["A"]
        self.init_par(c["pp"], dict(A=(lz, lz), f=(lz, 1), C=(ly, lz), h=(ly, 1), z0=(lz, 1)),
                      dict(Q=lz, R=ly, P0=lz), dict(Q=self.Q0, R=self.R0, P0=self.P0))

    def mod(self, name, u, t):
        return 1.0 if self.c["dep"][name] == "const" else 1.0 + 0.5 * numpy.sin(1.3 * t + unum(u) + len(name))

    def _v(self, name, u, t):
        return models.LTVTruth._v(self, name, u, t) + self.inc(name, self.mod(name, u, t))

    def grad(self, name, u, t):
        return self.cutg(name, self.dinc(name, self.mod(name, u, t)), t) if name in self.PG else None

    def joint(self):
        tr = copy.copy(self)
        tr.z0, tr.P0 = self.z0b + self.inc("z0"), self.P0b + self.inc("P0")
        return models.LTVTruth.joint(tr)

    def expectation(self, tr1):
        """(x0, xnext, y): expected log densities at the parameters of tr1
        under the smoothed law at those of self"""
        J, zs, obs = self.joint()
        o = [a[1:] for a in obs]
        P0 = tr1.P0b + tr1.inc("P0")
        ex0 = egauss(J.condition([zs[0]], o), numpy.eye(self.lz), -(tr1.z0b + tr1.inc("z0")), P0) if numpy.any(P0) else 0.0
        exn = ey = 0.0
        lz = self.lz
        for t in range(self.c["n"]):
            L = numpy.hstack((-tr1.A(self.u[t], t), numpy.eye(lz)))
            exn += egauss(J.condition([zs[t], zs[t + 1]], o), L, -tr1.f(self.u[t], t), tr1.Q(self.u[t], t))
        for (t, _v, y) in obs:
            ey += egauss(J.condition([zs[t]], o), -tr1.C(t), numpy.asarray(y).reshape((-1, 1)) - tr1.h(t), tr1.R(t))
        return ex0, exn, ey

    def loglik(self):
        J, zs, obs = self.joint()
        return J.logpdf([a[1:] for a in obs], []) if obs else 0.0


def egauss(mc, L, off, S):
    """E log N(L x + off; 0, S) for x with mean and covariance mc"""
    m, P = mc
    e = L.dot(numpy.asarray(m).reshape((-1, 1))) + off
    V = e.dot(e.T) + L.dot(P).dot(L.T)
    sign, ld = numpy.linalg.slogdet(S)
    assert sign > 0
    return -0.5 * (len(e) * gauss.L2PI + ld + numpy.trace(numpy.linalg.solve(S, V)))


def _pi():
    return importlib.import_module("pyparticleest.paramest.interfaces")


def _bases(grad):
    pi = _pi()
    return (pi.ParamEstBaseNumericGrad, pi.ParamEstInterface_GradientSearch) if grad else \
        (pi.ParamEstBaseNumeric, pi.ParamEstInterface)


def ltv_par_model(tr, grad=True, L=None, extra=None, none_as_zero=False):
    L = L or models.lib()
    c = tr.c
    dep = c["dep"]
    opt = lambda name, v: v if dep[name] == "time" else None

    def get_pred_dynamics(self, u, t):
        return (opt("A", tr.A(u, t)), opt("f", tr.f(u, t)), opt("Q", tr.Q(u, t)))

    def get_meas_dynamics(self, y, t):
        yy = None if y is None else numpy.asarray(y).reshape((-1, 1))
        yy, h = models.handed(c, yy, t, opt("h", tr.h(t)), lambda: tr.h(t))
        return (yy, opt("C", tr.C(t)), h, opt("R", tr.R(t)))

    def set_params(self, params):
        self.params = numpy.copy(params)
        tr.theta = numpy.array(params, dtype=float).reshape(-1)
        kw = {k: tr._v(k[0], None, 0) for k in ("A", "f_k", "Q", "C", "h_k", "R") if dep[k[0]] == "const"}
        self.kf.set_dynamics(**kw)
        self.z0 = tr.z0b + tr.inc("z0")
        self.P0 = tr.P0b + tr.inc("P0")

    def get_pred_dynamics_grad(self, u, t):
        return tuple(tr.grad(k, u, t) for k in "AfQ")

    def get_meas_dynamics_grad(self, y, t):
        return tuple(tr.grad(k, None, t) for k in "ChR")

    none = None

    def get_initial_grad(self):
        lz = tr.lz
        z = tr.dinc("z0") if "z0" in tr.PG else none if none_as_zero else numpy.zeros((tr.p, lz, 1))
        P = tr.dinc("P0") if "P0" in tr.PG else none if none_as_zero else numpy.zeros((tr.p, lz, lz))
        return (z, P)

    d = dict(get_pred_dynamics=get_pred_dynamics, get_meas_dynamics=get_meas_dynamics, set_params=set_params)
    if grad:
        if set("AfQ") & set(tr.PG):
            d["get_pred_dynamics_grad"] = get_pred_dynamics_grad
        if set("ChR") & set(tr.PG):
            d["get_meas_dynamics_grad"] = get_meas_dynamics_grad
        if set(("z0", "P0")) & set(tr.PG) or none_as_zero:
            d["get_initial_grad"] = get_initial_grad
    d.update(extra or {})
    cls = type("ParamLTV", (L.ltv.LTV,) + _bases(grad), d)
    lz, ly = tr.lz, tr.ly
    kw = {k: v for k, v in dict(A=numpy.eye(lz), C=numpy.zeros((ly, lz)), Q=numpy.eye(lz), R=numpy.eye(ly)).items()
          if dep[k] == "const"}
    m = cls(z0=tr.z0b, P0=tr.P0b, h=numpy.zeros((ly, 1)), **kw)
    m.set_params(tr.theta.copy())
    return m


# ---------------------------------------------------------------------------
MIXP = ("A", "f", "Q", "C", "h", "R", "z0", "P0", "xi0", "Pxi0")


class MixPar(models.MLNLGTruth, Par):
    """A, f and Q stand for the stacked matrices of (xi, z)."""

    def __init__(self, c):
        models.MLNLGTruth.__init__(self, dict(c, unit=1.0))
        lxi, lz, ly = self.lxi, self.lz, self.ly
        n = lxi + lz
        fixed = {"xi": ("xi0", "Pxi0"), "z": ("z0", "P0"), "xiz": ("xi0", "Pxi0", "z0", "P0")}.get(c.get("certain"), ())
        c["pp"]["par"] = [k for k in c["pp"]["par"] if k not in fixed] or ["A"]
        sh = dict(A=(n, lz), f=(n, 1), h=(ly, 1), z0=(lz, 1), xi0=(lxi,))
        if not c["noC"]:
            sh["C"] = (ly, lz)
        self.init_par(c["pp"], sh, dict(Q=n, R=ly, P0=lz, Pxi0=lxi),
                      dict(Q=self.J, R=self.b["R"][0], P0=self.P0, Pxi0=self.Pxi0))
        if "Q" in self.PG and not c["corr"]:
            for S in self.PG["Q"]:
                S[:lxi, lxi:] = 0
                S[lxi:, :lxi] = 0
        self.xi0b, self.Pxi0b = self.xi0, self.Pxi0

    def level(self, k):
        """the dependence all the blocks of k can express"""
        dep = self.c["dep"]
        keys = {"A": ("Axi", "Az"), "f": ("fxi", "fz"), "Q": ("Qxi", "Qz") + (("Qxiz",) if self.c["corr"] else ())}.get(k, (k,))
        return min((dep[q] for q in keys), key=("const", "time", "part").index)

    def mod(self, k, xi, u, t):
        d = self.level(k)
        if d == "const":
            return 1.0
        a = 1.3 * t + unum(u) + ord(k[0])
        if d == "part":
            a = a + self.xdep.dot(numpy.asarray(xi, dtype=float).reshape(-1))
        return 1.0 + 0.5 * numpy.sin(a)

    def whole(self, k, xi, u, t):
        v = models.MLNLGTruth.whole(self, k, xi, u, t)
        lxi = self.lxi
        if k in ("C", "h", "R"):
            return v + self.inc(k, self.mod(k, xi, u, t))
        q = k[0]
        if q not in self.PG:
            return v
        g = self.inc(q, self.mod(q, xi, u, t))
        if k == "Qxi":
            return v + g[:lxi, :lxi]
        if k == "Qz":
            return v + g[lxi:, lxi:]
        if k == "Qxiz":
            return v + g[:lxi, lxi:]
        return v + (g[:lxi] if k.endswith("xi") else g[lxi:])

    def rb(self, xi):
        z, P = models.MLNLGTruth.rb(self, xi)
        return z + self.inc("z0"), P + self.inc("P0")

    def initial(self):
        return self.xi0b + self.inc("xi0"), self.Pxi0b + self.inc("Pxi0")

    def expectation(self, tr1, xis):
        """as above given the nonlinear trajectory xis"""
        J, zs, obs = self.chain(xis)
        o = [a[-2:] for a in obs]
        lxi, lz = self.lxi, self.lz
        m0, S0 = tr1.initial()
        z0, P0 = tr1.rb(xis[0])
        ex0 = gauss.logpdf(numpy.asarray(xis[0]) - m0, S0) if numpy.any(S0) else 0.0
        ex0 += egauss(J.condition([zs[0]], o), numpy.eye(lz), -z0, P0) if numpy.any(P0) else 0.0
        exn = ey = 0.0
        for t in range(len(xis) - 1):
            E = numpy.zeros((lxi + lz, lz))
            E[lxi:] = numpy.eye(lz)
            L = numpy.hstack((-tr1.A(xis[t], self.u[t], t), E))
            off = -tr1.f(xis[t], self.u[t], t)
            off[:lxi] += numpy.asarray(xis[t + 1]).reshape((-1, 1))
            exn += egauss(J.condition([zs[t], zs[t + 1]], o), L, off, tr1.Q(xis[t], self.u[t], t))
        for (t, kind, _v, y) in obs:
            if kind == "y":
                C, h, R = tr1.meas(xis[t], t)
                ey += egauss(J.condition([zs[t]], o), -C, numpy.asarray(y).reshape((-1, 1)) - h, R)
        return ex0, exn, ey


def mix_par_model(tr, kind="sampled", grad=True, L=None):
    c = tr.c
    dep = c["dep"]
    lxi, lz, p = tr.lxi, tr.lz, tr.p
    L = L or models.lib()
    mb = {"sampled": L.mlnlg.MixedNLGaussianSampledInitialGaussian,
          "marginalized": L.mlnlg.MixedNLGaussianMarginalizedInitialGaussian}[kind]

    def set_params(self, params):
        mb.set_params(self, params)
        tr.theta = numpy.array(params, dtype=float).reshape(-1)
        kw = {}
        for k in models.MKEYS:
            if dep[k] == "const" and not (k == "Qxiz" and not c["corr"]) and not (k in "Ch" and c["noC"]):
                kw[k] = tr.get(k, None, None, 0)
        self.set_dynamics(**kw)
        m, S = tr.initial()
        self.xi0, self.Pxi0 = m.reshape((-1, 1)), S
        self.z0 = (tr.z0 + tr.inc("z0").ravel() if "z0" in tr.PG else tr.z0).reshape((-1, 1))
        self.Pz0 = tr.P0 + tr.inc("P0")

    def per(self, k, particles, u, t):
        if k not in tr.PG:
            return None
        return numpy.array([tr.cutg(k, tr.dinc(k, tr.mod(k, q[:lxi], u, t)), t) for q in particles])

    def get_pred_dynamics_grad(self, particles, u, t):
        return tuple(per(self, k, particles, u, t) for k in "AfQ")

    def get_meas_dynamics_grad(self, particles, y, t):
        return tuple(per(self, k, particles, None, t) for k in "ChR")

    def get_rb_initial_grad(self, xi0):
        N = len(xi0)
        z = tr.dinc("z0") if "z0" in tr.PG else numpy.zeros((p, lz, 1))
        P = tr.dinc("P0") if "P0" in tr.PG else numpy.zeros((p, lz, lz))
        return (N * (z,), N * (P,))

    def get_xi_intitial_grad(self, N):
        x = tr.dinc("xi0").reshape((p, lxi, 1)) if "xi0" in tr.PG else numpy.zeros((p, lxi, 1))
        P = tr.dinc("Pxi0") if "Pxi0" in tr.PG else numpy.zeros((p, lxi, lxi))
        return (N * (x,), N * (P,))

    d = dict(set_params=set_params)
    if grad:
        if set("AfQ") & set(tr.PG):
            d["get_pred_dynamics_grad"] = get_pred_dynamics_grad
        if set("ChR") & set(tr.PG):
            d["get_meas_dynamics_grad"] = get_meas_dynamics_grad
        if set(("z0", "P0")) & set(tr.PG):
            d["get_rb_initial_grad"] = get_rb_initial_grad
        if set(("xi0", "Pxi0")) & set(tr.PG):
            d["get_xi_intitial_grad"] = get_xi_intitial_grad
    m = models.mlnlg_model(tr, L=L, kind=kind, extra=d, bases=_bases(grad))
    m.set_params(tr.theta.copy())
    return m


# ---------------------------------------------------------------------------
class NLGPar(models.NLGTruth, Par):
    def __init__(self, c):
        models.NLGTruth.__init__(self, dict(c, units=(1.0, 1.0)))
        lx, ly = self.lx, self.ly
        self.init_par(c["pp"], dict(f=(lx,), g=(ly,), x0=(lx,)), dict(Q=lx, R=ly, P0=lx), dict(Q=self.Q0, R=self.R0, P0=self.P0))
        self.x0b, self.P0b = self.x0, self.P0

    def mod(self, k, x, t):
        return 1.0 if self.c["dep"][k] == "const" else 1.0 + 0.5 * numpy.sin(x[0] + t)

    def f(self, x, u, t): return models.NLGTruth.f(self, x, u, t) + self.inc("f", self.mod("f", x, t))
    def g(self, x, t): return models.NLGTruth.g(self, x, t) + self.inc("g", self.mod("g", x, t))
    def Q(self, x, u, t): return models.NLGTruth.Q(self, x, u, t) + self.inc("Q", self.mod("Q", x, t))
    def R(self, x, t): return models.NLGTruth.R(self, x, t) + self.inc("R", self.mod("R", x, t))

    def expectation(self, tr1, traj, ys, us):
        """log densities of the trajectory itself"""
        ex0 = gauss.logpdf(traj[0] - (tr1.x0b + tr1.inc("x0")), tr1.P0b + tr1.inc("P0"))
        exn = sum(gauss.logpdf(traj[t + 1] - tr1.f(traj[t], us[t], t), tr1.Q(traj[t], us[t], t))
                  for t in range(len(traj) - 1))
        ey = sum(gauss.logpdf(numpy.ravel(y) - tr1.g(traj[t], t), tr1.R(traj[t], t))
                 for t, y in enumerate(ys) if y is not None)
        return ex0, exn, ey


def nlg_par_model(tr, L=None):
    L = L or models.lib()
    dep = tr.c["dep"]
    pi = _pi()

    class B(L.nlg.NonlinearGaussianInitialGaussian, pi.ParamEstInterface, pi.ParamEstBaseNumeric):
        def set_params(self, params):
            L.nlg.NonlinearGaussianInitialGaussian.set_params(self, params)
            tr.theta = numpy.array(params, dtype=float).reshape(-1)
            z = numpy.zeros(tr.lx)
            if dep["f"] == "const":
                self.f = tr.f(z, None, 0)
            if dep["g"] == "const":
                self.g = tr.g(z, 0)
            if dep["Q"] == "const":
                self.set_Q(tr.Q(z, None, 0))
            if dep["R"] == "const":
                self.set_R(tr.R(z, 0))
            self.x0 = (tr.x0b + tr.inc("x0")).reshape((-1, 1))
            self.Px0 = tr.P0b + tr.inc("P0")
    m = models.nlg_model(tr, L=L, base=B)
    m.set_params(tr.theta.copy())
    return m
