"""Random model instances of the four model base classes, described by plain
matrix functions (the "truth") which the oracles use, and by library model
objects which hand those matrices to the library in the ways the interface
allows (constructor constants, or per-particle lists)."""
import importlib
import numpy
from hypothesis import strategies as st
from vlib import strat, gauss


class Lib(object):
    """The library modules of one import."""

    def __init__(self):
        g = importlib.import_module
        self.filter = g("pyparticleest.filter")
        self.smoother = g("pyparticleest.smoother")
        self.simulator = g("pyparticleest.simulator")
        self.interfaces = g("pyparticleest.interfaces")
        self.nlg = g("pyparticleest.models.nlg")
        self.ltv = g("pyparticleest.models.ltv")
        self.mlnlg = g("pyparticleest.models.mlnlg")
        self.hier = g("pyparticleest.models.hierarchial")


_LIB = None


def lib():
    global _LIB
    if _LIB is None:
        _LIB = Lib()
    return _LIB


CLASSES = None


def made(cls, *args, **kw):
    """cls(*args, **kw); with CLASSES (a dict) in force all models with the same bases and
    methods are objects of one class, as the models of a user are, which keep what tells
    them apart in the object; otherwise each has a class of its own"""
    if CLASSES is None:
        return cls(*args, **kw)
    own = {k: v for k, v in cls.__dict__.items() if not k.startswith("__")}
    names = tuple(sorted(k for k, v in own.items() if callable(v) and k != "truth"))
    key = (cls.__bases__, names)
    if key not in CLASSES:
        forward = lambda n: lambda self, *a, **k: self.my_methods[n](self, *a, **k)
        CLASSES[key] = type(cls.__name__, cls.__bases__, {n: forward(n) for n in names})
    m = CLASSES[key].__new__(CLASSES[key])
    m.my_methods = {n: own[n] for n in names}
    for k, v in own.items():
        if k not in m.my_methods:
            setattr(m, k, v)
    m.__init__(*args, **kw)
    return m


def mat(rng, *shape, scale=1.0):
    return scale * rng.uniform(-1.0, 1.0, shape)


def spd(rng, n, lo=0.2):
    L = numpy.tril(mat(rng, n, n, scale=0.6))
    L[numpy.arange(n), numpy.arange(n)] = rng.uniform(0.5, 1.2, n)
    return L.dot(L.T) + lo * 0.25 * numpy.eye(n)


def unum(u):
    return 0.0 if u is None else float(numpy.asarray(u).reshape(-1)[0])


DEP = ("const", "time", "part")


def draw_deps(draw, keys, deps=DEP):
    """what each matrix depends on; often the same kind for (nearly) all"""
    base = draw(st.sampled_from((None, None, "const", "time"))) if len(deps) > 1 else None
    if base not in deps:
        return {k: draw(st.sampled_from(deps)) for k in keys}
    odd = draw(st.one_of(st.none(), st.sampled_from(tuple(keys))))
    return {k: draw(st.sampled_from(deps)) if k == odd else base for k in keys}


GATES = ("", "", "", "f", "h", "C", "A", "X", "fh", "CA")


def gated(c, k, xi, t):
    """matrices which vary may be exactly zero at some times or for some
    particles"""
    g = c.get("gate") or ""
    if not ((k[0] in g and k[0] in "fhCA") or (k == "Qxiz" and "X" in g)):
        return False
    side = 0
    if c["dep"][k] == "part":
        side = int(numpy.asarray(xi, dtype=float).reshape(-1)[0] > 0)
    return (int(t) + side) % 2 == 1


def some_copies(rng, *arrays):
    """particle sets often hold copies: let some rows be equal"""
    N = len(arrays[0])
    kind = rng.randint(0, 6)
    if N < 2 or kind < 3:
        return arrays[0] if len(arrays) == 1 else arrays
    ind = numpy.arange(N)
    if kind == 3:
        ind[-1] = 0
    elif kind == 4:
        ind = numpy.sort(rng.randint(0, N, N))
    else:
        ind = rng.randint(0, N, N)
    out = tuple(a[ind].copy() for a in arrays)
    return out[0] if len(out) == 1 else out


# ---------------------------------------------------------------------------
# forms of data common to the linear, mixed and hierarchical models
# ---------------------------------------------------------------------------
@st.composite
def forms(draw, c):
    """Now and then: only some rows of the measurement at each time index,
    measurements and inputs which are exactly zero, matrices of integers."""
    n = c["n"]
    if c["ly"] > 1 and draw(st.integers(0, 3)) == 0:
        c["rows"] = [draw(st.integers(1, c["ly"])) for _ in range(n + 1)]
    if draw(st.integers(0, 3)) == 0:
        c["zero"] = [draw(st.integers(0, 2)) for _ in range(n + 1)]
    if draw(st.integers(0, 5)) == 0:
        c["ints"] = True
    if draw(st.integers(0, 3)) == 0:
        c["lay"] = draw(strat.oneof("F", "view", "ro"))
    if draw(st.integers(0, 3)) == 0:
        c["shift"] = True
    if draw(st.booleans()):
        c["per"] = draw(strat.oneof("tuple", "array"))
    return c


def handed(c, y, t, h, full):
    """What a model makes of a measurement: (y, h), or the same measurement
    equation with y counted from elsewhere, (y - d, h - d). h: the model's own
    answer, None for the constant; full(): the h which None stands for."""
    if y is None or not c.get("shift"):
        return y, h
    if h is None:
        h = full()
    y = numpy.asarray(y)
    d = (0.5 + 0.1 * t) * y
    dh = d.reshape((-1, 1))
    return y - d, type(h)(numpy.asarray(q) - dh for q in h) if isinstance(h, (list, tuple)) else numpy.asarray(h) - dh


def as_case(c):
    """with some rows of the measurements only, their matrices depend on time"""
    if c.get("rows"):
        c = dict(c, dep={k: "time" if k in "ChR" and v == "const" else v for k, v in c["dep"].items()})
    return c


def nrows(self, t):
    r = self.c.get("rows")
    return r[int(t) % len(r)] if r else self.ly


def cut(self, k, v, t):
    """the rows of C, h or R which are there at time t"""
    if k in "ChR" and self.c.get("rows"):
        r = self.nrows(t)
        v = v[:r, :r] if k == "R" else v[:r]
    return v


def shape_data(tr, extra=0):
    c = tr.c
    if c.get("zero"):
        z = lambda i: c["zero"][i] == 0
        tr.y = [v if v is None or not z(i + 1) else 0 * v for i, v in enumerate(tr.y)]
        if tr.y0 is not None and z(0):
            tr.y0 = 0 * tr.y0
        tr.u = [v if v is None or c["zero"][i] != 1 else 0.0 for i, v in enumerate(tr.u)]
    if c.get("rows"):
        tr.y = [None if v is None else v[:c["rows"][i + 1] + extra] for i, v in enumerate(tr.y)]
        if tr.y0 is not None:
            tr.y0 = tr.y0[:c["rows"][0] + extra]
    if c.get("lay"):
        tr.y = [gauss.laid(c["lay"], v) for v in tr.y]
        tr.y0 = gauss.laid(c["lay"], tr.y0)


def ints_form(c, k, v):
    """a constant matrix, an initial value or a measurement as the model is given it"""
    if c.get("ints") and v is not None and numpy.array_equal(v, numpy.round(v)):
        v = numpy.asarray(v).astype(int)
    return gauss.laid(c.get("lay", "C"), v)


def int_spd(rng, n):
    """a positive definite matrix of integers"""
    a = numpy.triu(rng.randint(-1, 2, size=(n, n)), 1)
    return (a + a.T + numpy.diag(rng.randint(n, n + 2, size=n))) * 1.0


def whole_numbers(tr, names, spds):
    """integer initial values, covariances and measurements"""
    r = numpy.random.RandomState(tr.c["seed"] ^ 77)
    for k in names:
        setattr(tr, k, numpy.round(1.5 * getattr(tr, k)))
    for k in spds:
        v = getattr(tr, k)
        if numpy.any(v):
            setattr(tr, k, int_spd(r, len(v)))
    tr.y = [ints_form(tr.c, "y", None if v is None else numpy.round(v)) for v in tr.y]
    if tr.y0 is not None:
        tr.y0 = ints_form(tr.c, "y", numpy.round(tr.y0))


# ---------------------------------------------------------------------------
# linear time-varying
# ---------------------------------------------------------------------------
@st.composite
def ltv_case(draw, min_steps=1, max_steps=6, certain=True, long=True):
    n = st.integers(min_steps, max_steps)
    n = draw(strat.size(n, 9, 14, 24, 60) if long and max_steps >= 4 else n)
    dep = {k: draw(strat.oneof("const", "time")) for k in ("A", "f", "Q", "C", "h", "R")}
    c = dict(lz=draw(strat.size(st.integers(1, 3), 4, 6)), ly=draw(strat.size(st.integers(1, 2), 3, 5)), n=n, dep=dep,
                u=draw(st.booleans()), miss=[draw(st.integers(0, 4)) == 0 for _ in range(n)],
                first=draw(st.booleans()), seed=draw(strat.seeds), noh=draw(st.booleans()),
                nof=draw(st.booleans()), z0shape=draw(strat.oneof("col", "flat", "int")),
                ycol=draw(st.booleans()), certain=certain and draw(st.integers(0, 4)) == 0,
                gate=draw(strat.oneof(*GATES)), unit=draw(strat.oneof(1.0, 1.0, 1.0, 1e-3, 1e3)))
    return draw(forms(c))


class LTVTruth(object):
    nrows, cut = nrows, cut

    def __init__(self, c):
        c = as_case(c)
        rng = numpy.random.RandomState(c["seed"])
        self.c = c
        lz, ly = c["lz"], c["ly"]
        self.lz, self.ly = lz, ly
        self.z0, self.P0 = mat(rng, lz, 1), spd(rng, lz)
        if c["z0shape"] == "int":
            self.z0 = numpy.round(2 * self.z0)
        if c.get("certain"):
            self.P0 = numpy.zeros((lz, lz))
        self.A0, self.A1 = mat(rng, lz, lz), mat(rng, lz, lz, scale=0.3)
        if c["n"] > 6:                    # no growth over long runs
            self.A0, self.A1 = self.A0 / lz, self.A1 / lz
        self.f0, self.f1 = mat(rng, lz, 1), mat(rng, lz, 1)
        self.Q0, self.Q1 = spd(rng, lz), spd(rng, lz)
        self.C0, self.C1 = mat(rng, ly, lz), mat(rng, ly, lz, scale=0.5)
        self.h0, self.h1 = mat(rng, ly, 1), mat(rng, ly, 1)
        self.R0, self.R1 = spd(rng, ly), spd(rng, ly)
        if c["noh"] and c["dep"]["h"] == "const":
            self.h0 = numpy.zeros((ly, 1))
        if c["nof"] and c["dep"]["f"] == "const":
            self.f0 = numpy.zeros((lz, 1))
        if c.get("ints") and c["n"] < 6 and c.get("unit", 1.0) == 1.0:
            for k in ("A0", "f0", "C0", "h0"):
                setattr(self, k, numpy.round(1.5 * getattr(self, k)))
        n = c["n"]
        self.u = [rng.uniform(-1, 1) for _ in range(n)] if c["u"] else [None] * n
        shp = (ly, 1) if c["ycol"] else (ly,)
        self.y = [None if m else mat(rng, *shp, scale=2.0) for m in c["miss"]]
        self.y0 = mat(rng, *shp, scale=2.0) if c["first"] else None
        if c.get("ints") and c.get("unit", 1.0) == 1.0:
            whole_numbers(self, ("z0",), ("P0", "Q0", "R0"))
        # what states and measurements are measured in
        unit = self.unit = c.get("unit", 1.0)
        if unit != 1.0 and c["z0shape"] != "int":
            for k in ("z0", "f0", "f1", "h0", "h1", "y0"):
                if getattr(self, k) is not None:
                    setattr(self, k, getattr(self, k) * unit)
            for k in ("P0", "Q0", "Q1", "R0", "R1"):
                setattr(self, k, getattr(self, k) * unit ** 2)
            self.y = [None if v is None else v * unit for v in self.y]
        else:
            self.unit = 1.0
        shape_data(self)

    def _v(self, name, u, t):
        if self.c["dep"][name] == "const":
            return getattr(self, name + "0")
        if gated(self.c, name, None, t):
            return numpy.zeros_like(getattr(self, name + "0"))
        s = numpy.sin(0.7 * t + 0.3 + unum(u))
        if name in "QR":
            return getattr(self, name + "0") + (1 + s) * getattr(self, name + "1")
        return getattr(self, name + "0") + s * getattr(self, name + "1")

    def A(self, u, t): return self._v("A", u, t)
    def f(self, u, t): return self._v("f", u, t)
    def Q(self, u, t): return self._v("Q", u, t)
    def C(self, t): return self.cut("C", self._v("C", None, t), t)
    def h(self, t): return self.cut("h", self._v("h", None, t), t)
    def R(self, t): return self.cut("R", self._v("R", None, t), t)

    def joint(self):
        """(Joint, [z_t], [(t, y variable, y value)])"""
        J = gauss.Joint()
        zs = [J.noise(self.z0, self.P0)]
        obs = []
        ys = [self.y0] + self.y

        def meas(t):
            if ys[t] is not None:
                v = zs[t].lin(self.C(t)) + self.h(t) + J.noise(numpy.zeros(self.nrows(t)), self.R(t))
                obs.append((t, v, ys[t]))
        meas(0)
        for t in range(self.c["n"]):
            zs.append(zs[t].lin(self.A(self.u[t], t)) + self.f(self.u[t], t) +
                      J.noise(numpy.zeros(self.lz), self.Q(self.u[t], t)))
            meas(t + 1)
        return J, zs, obs


def ltv_model(tr, L=None, base=()):
    L = L or lib()
    c = tr.c
    dep = c["dep"]
    opt = lambda name, v: v if dep[name] == "time" else None

    class M(L.ltv.LTV):
        truth = tr

        def get_pred_dynamics(self, u, t):
            return (opt("A", tr.A(u, t)), opt("f", tr.f(u, t)), opt("Q", tr.Q(u, t)))

        def get_meas_dynamics(self, y, t):
            yy = None if y is None else numpy.asarray(y).reshape((-1, 1))
            yy, h = handed(c, yy, t, opt("h", tr.h(t)), lambda: tr.h(t))
            return (yy, opt("C", tr.C(t)), h, opt("R", tr.R(t)))

    kw = dict(A=tr.A0, C=tr.C0, Q=tr.Q0, R=tr.R0)
    if not (c["noh"] and dep["h"] == "const"):
        kw["h"] = tr.h0
    if not (c["nof"] and dep["f"] == "const"):
        kw["f"] = tr.f0
    kw = {k: ints_form(c, k, v) for k, v in kw.items() if dep[k] != "time"}
    z0 = {"col": tr.z0, "flat": tr.z0.ravel(), "int": tr.z0.ravel().astype(int)}[c["z0shape"]]
    return made(M, z0=ints_form(c, "z0", z0), P0=ints_form(c, "P0", tr.P0), **kw)


# ---------------------------------------------------------------------------
# nonlinear Gaussian
# ---------------------------------------------------------------------------
@st.composite
def nlg_case(draw):
    dep = {k: draw(strat.oneof("const", "part")) for k in ("f", "Q", "g", "R")}
    return dict(lx=draw(strat.size(st.integers(1, 3), 4, 6)), ly=draw(strat.size(st.integers(1, 3), 4, 6)), dep=dep,
                N=draw(strat.size(st.integers(1, 6), 20, 70, 130)), u=draw(st.booleans()), t=draw(strat.size(st.integers(0, 5), 12, 100)),
                yform=draw(strat.oneof("flat", "col", "list")), seed=draw(strat.seeds),
                how=draw(strat.oneof("ctor", "set")), x0form=draw(strat.oneof("flat", "col", "int", "none")),
                units=[draw(strat.oneof(1.0, 1.0, 1.0, 1e-5, 1e3)), draw(strat.oneof(1.0, 1.0, 1.0, 1e-5, 1e3))],
                per=draw(strat.oneof("array", "list", "tuple")))


class NLGTruth(object):
    def __init__(self, c):
        rng = numpy.random.RandomState(c["seed"])
        self.c = c
        lx, ly = self.lx, self.ly = c["lx"], c["ly"]
        # what states and measurements are measured in
        self.v, self.w = c.get("units", (1.0, 1.0)) if c.get("x0form") != "int" else (1.0, 1.0)
        self.x0, self.P0 = mat(rng, lx, scale=2.0), spd(rng, lx)
        if c.get("x0form") == "int":
            self.x0 = numpy.round(self.x0)
        if c.get("x0form") == "none":
            self.x0 = numpy.zeros(lx)
        self.f0, self.F = mat(rng, lx), mat(rng, lx, lx)
        self.g0, self.G = mat(rng, ly), mat(rng, ly, lx)
        self.Q0, self.Q1 = spd(rng, lx), spd(rng, lx)
        self.R0, self.R1 = spd(rng, ly), spd(rng, ly)
        for k in ("x0", "f0"):
            setattr(self, k, getattr(self, k) * self.v)
        for k in ("P0", "Q0", "Q1"):
            setattr(self, k, getattr(self, k) * self.v ** 2)
        self.g0 = self.g0 * self.w
        for k in ("R0", "R1"):
            setattr(self, k, getattr(self, k) * self.w ** 2)
        self.rng = rng

    def f(self, x, u, t):
        if self.c["dep"]["f"] == "const":
            return self.f0
        x = x / self.v
        return self.f0 + self.v * (numpy.sin(self.F.dot(x) + 0.3 * t) + 0.5 * x + unum(u))

    def g(self, x, t):
        if self.c["dep"]["g"] == "const":
            return self.g0
        x = x / self.v
        return self.g0 + self.w * (numpy.cos(self.G.dot(x) + 0.2 * t) + 0.5 * self.G.dot(x))

    def Q(self, x, u, t):
        if self.c["dep"]["Q"] == "const":
            return self.Q0
        return self.Q0 + (1 + numpy.sin(x[0] / self.v + 0.4 * t + unum(u))) * self.Q1

    def R(self, x, t):
        if self.c["dep"]["R"] == "const":
            return self.R0
        return self.R0 + (1 + numpy.cos(x[-1] / self.v - 0.4 * t)) * self.R1


def nlg_model(tr, L=None, Px0=True, base=None):
    L = L or lib()
    dep = tr.c["dep"]
    c = tr.c

    class M(base or L.nlg.NonlinearGaussianInitialGaussian):
        truth = tr

        def calc_f(self, particles, u, t):
            if dep["f"] == "const":
                return None
            return numpy.array([tr.f(x, u, t) for x in particles])

        def calc_Q(self, particles, u, t):
            if dep["Q"] == "const":
                return None
            return strat_form(c, [tr.Q(x, u, t) for x in particles], "array")

        def calc_g(self, particles, t):
            if dep["g"] == "const":
                return None
            return numpy.array([tr.g(x, t) for x in particles])

        def calc_R(self, particles, t):
            if dep["R"] == "const":
                return None
            return strat_form(c, [tr.R(x, t) for x in particles], "array")

    kw = {}
    for k in ("f", "g", "Q", "R"):
        if dep[k] == "const":
            kw[k] = getattr(tr, k + "0")
    q, r = kw.get("Q"), kw.get("R")
    if c["how"] == "set":
        if q is not None:
            kw["Q"] = numpy.eye(tr.lx) * 3.0
        if r is not None:
            kw["R"] = numpy.eye(tr.ly) * 3.0
    form = c.get("x0form", "flat")
    if form == "flat":
        kw["x0"] = tr.x0
    elif form == "col":
        kw["x0"] = tr.x0.reshape((-1, 1))
    elif form == "int":
        kw["x0"] = tr.x0.astype(int)
    elif not Px0 or c["seed"] % 2:
        kw["lxi"] = tr.lx
    if Px0:
        kw["Px0"] = tr.P0
    m = made(M, **kw)
    if c["how"] == "set":
        if q is not None:
            m.set_Q(q)
        if r is not None:
            m.set_R(r)
    return m


# ---------------------------------------------------------------------------
# mixed linear/nonlinear Gaussian
# ---------------------------------------------------------------------------
MKEYS = ("Axi", "fxi", "Qxi", "Qxiz", "Az", "fz", "Qz", "C", "h", "R")


@st.composite
def mlnlg_case(draw, min_steps=1, max_steps=4, Ns=(1, 2, 4), deps=DEP, noC=True, certain=False, long=True):
    n, N = st.integers(min_steps, max_steps), st.sampled_from(Ns)
    if max_steps >= 4:
        n, N = strat.size(n, 7, 11, 20) if long else n, strat.size(N, 15, 40, 130)
    n, N = draw(n), draw(N)
    dep = draw_deps(draw, MKEYS, deps)
    corr = draw(st.booleans())
    c = dict(lxi=draw(strat.size(st.integers(1, 2), 3, 4)), lz=draw(strat.size(st.integers(1, 2), 3, 4)),
                ly=draw(strat.size(st.integers(1, 2), 3)),
                n=n, N=N, dep=dep, corr=corr,
                noC=noC and draw(st.integers(0, 5)) == 0,
                u=draw(st.booleans()), miss=[draw(st.integers(0, 4)) == 0 for _ in range(n)],
                first=draw(st.booleans()), seed=draw(strat.seeds),
                rb=draw(st.booleans()), how=draw(strat.oneof("ctor", "set")),
                certain=draw(strat.oneof("", "", "", "xi", "z", "xiz")) if certain else "",
                gate=draw(strat.oneof(*GATES)), unit=draw(strat.oneof(1.0, 1.0, 1.0, 1e-5, 1e2)))
    return draw(forms(c))


class MLNLGTruth(object):
    """Matrices as functions of one particle's xi (1-d array)."""
    nrows, cut = nrows, cut

    def __init__(self, c):
        c = as_case(c)
        self.c = c
        rng = self.rng = numpy.random.RandomState(c["seed"])
        lxi, lz, ly = self.lxi, self.lz, self.ly = c["lxi"], c["lz"], c["ly"]
        self.xi0, self.Pxi0 = mat(rng, lxi), spd(rng, lxi)
        self.z0, self.P0 = mat(rng, lz), spd(rng, lz)
        self.z0d, self.P0d = mat(rng, lz), spd(rng, lz)
        # states known exactly at the start
        if "xi" in c.get("certain", ""):
            self.Pxi0 = numpy.zeros((lxi, lxi))
        if "z" in c.get("certain", ""):
            self.P0, self.P0d = numpy.zeros((lz, lz)), numpy.zeros((lz, lz))
        self.b = {}
        for k, sh in (("Axi", (lxi, lz)), ("fxi", (lxi, 1)), ("Az", (lz, lz)), ("fz", (lz, 1)),
                      ("C", (ly, lz)), ("h", (ly, 1))):
            self.b[k] = (mat(rng, *sh), mat(rng, *sh, scale=0.6))
        if c["n"] > 5:                    # no growth over long runs
            for k in ("Axi", "Az"):
                self.b[k] = tuple(a * 0.6 / lz for a in self.b[k])
        if c.get("ints") and c["n"] < 6 and c.get("unit", 1.0) == 1.0:
            self.b = {k: (numpy.round(1.5 * v[0]), v[1]) for k, v in self.b.items()}
        J = spd(rng, lxi + lz)
        ints = c.get("ints") and c.get("unit", 1.0) == 1.0
        if ints:
            J = int_spd(numpy.random.RandomState(c["seed"] ^ 7), lxi + lz)
        if not c["corr"]:
            J[:lxi, lxi:] = 0
            J[lxi:, :lxi] = 0
        self.J = J
        self.b["Qxi"] = (J[:lxi, :lxi], spd(rng, lxi))
        self.b["Qz"] = (J[lxi:, lxi:], spd(rng, lz))
        self.b["Qxiz"] = (J[:lxi, lxi:], None)
        self.b["R"] = (spd(rng, ly), spd(rng, ly))
        n = c["n"]
        self.u = [rng.uniform(-1, 1) for _ in range(n)] if c["u"] else [None] * n
        self.y = [None if m else mat(rng, ly, 1, scale=2.0) for m in c["miss"]]
        self.y0 = mat(rng, ly, 1, scale=2.0) if c["first"] else None
        self.xdep = mat(rng, lxi, scale=1.5)
        if ints:
            whole_numbers(self, ("xi0", "z0"), ("Pxi0", "P0"))
            self.b["R"] = (int_spd(numpy.random.RandomState(c["seed"] ^ 8), ly), self.b["R"][1])
        self.z_units(c.get("unit", 1.0))
        shape_data(self)

    def z_units(self, v):
        """z measured in another unit"""
        if v == 1.0:
            return
        for k in ("z0", "z0d"):
            setattr(self, k, getattr(self, k) * v)
        for k in ("P0", "P0d"):
            setattr(self, k, getattr(self, k) * v * v)
        for k, p in (("Axi", -1), ("C", -1), ("fz", 1), ("Qz", 2), ("Qxiz", 1)):
            if k in self.b:
                self.b[k] = tuple(None if a is None else a * float(v) ** p for a in self.b[k])

    def s(self, k, xi, u, t):
        d = self.c["dep"][k]
        a = 0.9 * t + 0.1 * len(k) + unum(u)
        if d == "part":
            a = a + self.xdep.dot(numpy.asarray(xi, dtype=float).reshape(-1))
        return a

    def get(self, k, xi, u, t):
        return self.cut(k, self.whole(k, xi, u, t), t)

    def whole(self, k, xi, u, t):
        m, d = self.b[k]
        if self.c["dep"][k] == "const":
            return m
        if gated(self.c, k, xi, t):
            return numpy.zeros_like(m)
        a = self.s(k, xi, u, t)
        if k in ("Qxi", "Qz", "R"):
            return m + (1 + numpy.sin(a)) * d
        if k == "Qxiz":
            return m * numpy.cos(a)
        if k in ("fxi", "h") and self.c["dep"][k] == "part":
            x = numpy.asarray(xi, dtype=float).reshape(-1)
            # (bounded in long runs)
            q = 0.3 * x[0] * x[0] if self.c["n"] <= 5 else numpy.cos(x[0])
            return m + numpy.sin(a) * d + q * d
        return m + numpy.sin(a) * d

    def Q(self, xi, u, t):
        X = self.get("Qxiz", xi, u, t)
        return numpy.block([[self.get("Qxi", xi, u, t), X], [X.T, self.get("Qz", xi, u, t)]])

    def A(self, xi, u, t):
        return numpy.vstack((self.get("Axi", xi, u, t), self.get("Az", xi, u, t)))

    def f(self, xi, u, t):
        return numpy.vstack((self.get("fxi", xi, u, t), self.get("fz", xi, u, t)))

    def meas(self, xi, t):
        C = numpy.zeros((self.nrows(t), self.lz)) if self.c["noC"] else self.get("C", xi, None, t)
        return C, self.get("h", xi, None, t), self.get("R", xi, None, t)

    def rb(self, xi):
        """initial mean and covariance of z given xi"""
        if not self.c["rb"]:
            return self.z0.reshape((-1, 1)), self.P0
        s = numpy.asarray(xi, dtype=float).reshape(-1)[0]
        return (self.z0 + s * self.z0d).reshape((-1, 1)), self.P0 + (1 + numpy.sin(s)) * self.P0d

    def chain(self, xis, y0=None, ys=None, us=None, upto=None):
        """Joint Gaussian of z_0.. given that the nonlinear trajectory is xis
        (list of 1-d arrays; None for an unknown last one).
        Returns (J, zs, obs) with obs = list of (time, kind, var, value)."""
        us = self.u if us is None else us
        ys = [self.y0] + self.y if ys is None else ys
        J = gauss.Joint()
        z0, P0 = self.rb(xis[0])
        zs = [J.noise(z0, P0)]
        obs = []

        def meas(t):
            if ys[t] is not None:
                C, h, R = self.meas(xis[t], t)
                obs.append((t, "y", zs[t].lin(C) + h + J.noise(numpy.zeros(len(R)), R), ys[t]))
        meas(0)
        lxi = self.lxi
        for t in range(len(xis) - 1):
            w = J.noise(numpy.zeros(lxi + self.lz), self.Q(xis[t], us[t], t))
            x = zs[t].lin(self.A(xis[t], us[t], t)) + self.f(xis[t], us[t], t) + w
            obs.append((t + 1, "xi", x.part(slice(0, lxi)), xis[t + 1]))
            zs.append(x.part(slice(lxi, lxi + self.lz)))
            meas(t + 1)
        return J, zs, obs


def strat_form(c, v, usual="list"):
    """one matrix per particle: as a list, a tuple or an array"""
    f = c.get("per", usual)
    return v if f == "list" else tuple(v) if f == "tuple" else numpy.array(v)


def mlnlg_model(tr, L=None, kind="sampled", Pxi0=True, extra=None, bases=()):
    """kind: sampled | marginalized"""
    L = L or lib()
    c = dict(tr.c)
    dep = c["dep"]
    base = {"sampled": L.mlnlg.MixedNLGaussianSampledInitialGaussian,
            "marginalized": L.mlnlg.MixedNLGaussianMarginalizedInitialGaussian}[kind]

    def lst(k, particles, u, t):
        if dep[k] == "const":
            return None
        return strat_form(c, [tr.get(k, p[:tr.lxi], u, t) for p in particles])

    d = dict(truth=tr)

    def get_lin_pred_dynamics(self, particles, u, t):
        return (lst("Az", particles, u, t), lst("fz", particles, u, t), lst("Qz", particles, u, t))

    def get_nonlin_pred_dynamics(self, particles, u, t):
        return (lst("Axi", particles, u, t), lst("fxi", particles, u, t), lst("Qxi", particles, u, t))

    def get_meas_dynamics(self, particles, y, t):
        yy = None if y is None else numpy.asarray(y).reshape((-1, 1))
        every = lambda: [tr.get("h", p[:tr.lxi], None, t) for p in particles]
        yy, h = handed(c, yy, t, lst("h", particles, None, t), every)
        if c["noC"]:
            if h is None:
                h = [tr.get("h", p[:tr.lxi], None, t) for p in particles]
            C = [tr.meas(p[:tr.lxi], t)[0] for p in particles] if c.get("rows") else None
            return (yy, C, numpy.array(h), lst("R", particles, None, t))
        return (yy, lst("C", particles, None, t), h, lst("R", particles, None, t))

    d.update(get_lin_pred_dynamics=get_lin_pred_dynamics,
             get_nonlin_pred_dynamics=get_nonlin_pred_dynamics, get_meas_dynamics=get_meas_dynamics)
    if c["corr"] and dep["Qxiz"] != "const":
        d["get_cross_covariance"] = lambda self, particles, u, t: lst("Qxiz", particles, u, t)
    if c["rb"]:
        def get_rb_initial(self, xi0):
            r = [tr.rb(numpy.asarray(x).ravel()) for x in xi0]
            return (numpy.array([a[0] for a in r]), numpy.array([a[1] for a in r]))

        def create_initial_estimate(self, N):
            p = base.create_initial_estimate(self, N)
            z, P = self.get_rb_initial(p[:, :tr.lxi])
            self.set_states(p, p[:, :tr.lxi].copy(), z, P)
            return p
        d.update(get_rb_initial=get_rb_initial, create_initial_estimate=create_initial_estimate)
    if extra:
        d.update(extra)
    cls = type("MixedModel", (base,) + tuple(bases), d)
    kw = {}
    for k in MKEYS:
        if dep[k] == "const" and not (k == "Qxiz" and not c["corr"]) and not (k in "Ch" and c["noC"]):
            kw[k] = ints_form(c, k, tr.get(k, None, None, 0))
    kw["R"] = tr.get("R", numpy.zeros(tr.lxi), None, 0) if "R" not in kw else kw["R"]
    if dep["R"] != "const":
        kw.pop("R")
    late = {}
    if c["how"] == "set":
        late = dict(kw)
        kw = {k: numpy.zeros_like(v) if k not in ("Qxi", "Qz", "R") else numpy.eye(len(v)) for k, v in kw.items()}
    i = lambda k: ints_form(c, k, getattr(tr, k))
    m = made(cls, xi0=i("xi0"), z0=i("z0"), Pxi0=i("Pxi0") if Pxi0 and numpy.any(tr.Pxi0) else None,
            Pz0=i("P0") if numpy.any(tr.P0) else None, **kw)
    if late:
        m.set_dynamics(**late)
    return m


# ---------------------------------------------------------------------------
# hierarchical
# ---------------------------------------------------------------------------
HKEYS = ("Az", "fz", "Qz", "C", "h", "R")


@st.composite
def hier_case(draw, min_steps=1, max_steps=4, Ns=(1, 2, 4)):
    n, N = st.integers(min_steps, max_steps), st.sampled_from(Ns)
    if max_steps >= 4:
        n, N = strat.size(n, 7, 11, 20), strat.size(N, 15, 40, 130)
    n, N = draw(n), draw(N)
    c = dict(lxi=draw(strat.size(st.integers(1, 2), 3, 4)), lz=draw(strat.size(st.integers(1, 2), 3, 4)),
                ly=draw(strat.size(st.integers(1, 2), 3)),
                n=n, N=N,
                dep=draw_deps(draw, HKEYS),
                u=draw(st.booleans()), miss=[draw(st.integers(0, 4)) == 0 for _ in range(n)],
                first=draw(st.booleans()), seed=draw(strat.seeds), rb=True,
                rs=draw(st.booleans()), wide=draw(st.booleans()),
                gate=draw(strat.oneof(*GATES)), unit=draw(strat.oneof(1.0, 1.0, 1.0, 1e-3, 1e2)))
    return draw(forms(c))


class HierTruth(object):
    nrows, cut = nrows, cut

    def __init__(self, c):
        c = as_case(c)
        self.c = c
        rng = self.rng = numpy.random.RandomState(c["seed"])
        lxi, lz, ly = self.lxi, self.lz, self.ly = c["lxi"], c["lz"], c["ly"]
        self.xi0, self.Pxi0 = mat(rng, lxi), spd(rng, lxi)
        self.z0, self.P0 = mat(rng, lz), spd(rng, lz)
        self.z0d, self.P0d = mat(rng, lz), spd(rng, lz)
        self.F, self.Qx, self.Rx = mat(rng, lxi, lxi), spd(rng, lxi), spd(rng, 1)[0, 0]
        self.b = {}
        for k, sh in (("Az", (lz, lz)), ("fz", (lz, 1)), ("C", (ly, lz)), ("h", (ly, 1))):
            self.b[k] = (mat(rng, *sh), mat(rng, *sh, scale=0.6))
        if c["n"] > 5:
            self.b["Az"] = tuple(a * 0.6 / lz for a in self.b["Az"])
        if c.get("ints") and c["n"] < 6 and c.get("unit", 1.0) == 1.0:
            self.b = {k: (numpy.round(1.5 * v[0]), v[1]) for k, v in self.b.items()}
        self.b["Qz"] = (spd(rng, lz), spd(rng, lz))
        self.b["R"] = (spd(rng, ly), spd(rng, ly))
        n = c["n"]
        self.u = [rng.uniform(-1, 1) for _ in range(n)] if c["u"] else [None] * n
        self.y = [None if m else mat(rng, ly + 1, scale=2.0) for m in c["miss"]]
        self.y0 = mat(rng, ly + 1, scale=2.0) if c["first"] else None
        self.xdep = mat(rng, lxi, scale=1.5)
        if c.get("ints") and c.get("unit", 1.0) == 1.0:
            whole_numbers(self, ("xi0", "z0"), ("Pxi0", "P0"))
            for k in ("Qz", "R"):
                self.b[k] = (int_spd(numpy.random.RandomState(c["seed"] ^ 8), len(self.b[k][0])), self.b[k][1])
        self.z_units(c.get("unit", 1.0))
        shape_data(self, 1)

    z_units = MLNLGTruth.z_units
    get = MLNLGTruth.get
    whole = MLNLGTruth.whole
    s = MLNLGTruth.s
    rb = MLNLGTruth.rb

    def fx(self, xi, u, t):
        return numpy.sin(self.F.dot(xi) + 0.2 * t) + 0.5 * xi + unum(u)

    def logp_xi(self, xi, xin, u, t):
        return gauss.logpdf(numpy.asarray(xin) - self.fx(xi, u, t), self.Qx)

    def loglik_xi(self, xi, y, t):
        return gauss.logpdf([y[0] - xi[0] - 0.1 * t], [[self.Rx]])

    def chain(self, xis, ys=None, us=None):
        us = self.u if us is None else us
        ys = [self.y0] + self.y if ys is None else ys
        J = gauss.Joint()
        zs = [J.noise(*self.rb(xis[0]))]
        obs = []

        def meas(t):
            if ys[t] is not None:
                v = zs[t].lin(self.get("C", xis[t], None, t)) + self.get("h", xis[t], None, t) + \
                    J.noise(numpy.zeros(self.nrows(t)), self.get("R", xis[t], None, t))
                obs.append((t, "y", v, ys[t][1:]))
        meas(0)
        for t in range(len(xis) - 1):
            g = lambda k: self.get(k, xis[t], us[t], t)
            zs.append(zs[t].lin(g("Az")) + g("fz") + J.noise(numpy.zeros(self.lz), g("Qz")))
            meas(t + 1)
        return J, zs, obs


def hier_model(tr, L=None):
    L = L or lib()
    c = tr.c
    dep = c["dep"]
    base = L.hier.HierarchicalRSBase if c["rs"] else L.hier.HierarchicalBase

    def lst(k, particles, u, t):
        if dep[k] == "const":
            return None
        return numpy.array([tr.get(k, p[:tr.lxi], u, t) for p in particles])

    class M(base):
        truth = tr

        def create_initial_estimate(self, N):
            # with or without room for the cross moments the smoother adds
            p = numpy.zeros((N, tr.lxi + tr.lz + (2 if c.get("wide") else 1) * tr.lz ** 2))
            xi = numpy.random.multivariate_normal(tr.xi0, tr.Pxi0, N)
            z, P = self.get_rb_initial(xi)
            self.set_states(p, xi, z, P)
            return p

        def get_rb_initial(self, xi0):
            r = [tr.rb(numpy.asarray(x).ravel()) for x in xi0]
            return (numpy.array([a[0] for a in r]), numpy.array([a[1] for a in r]))

        def sample_process_noise(self, particles, u, t):
            return numpy.random.multivariate_normal(numpy.zeros(tr.lxi), tr.Qx, len(particles))

        def calc_xi_next(self, particles, u, t, noise):
            return numpy.array([tr.fx(p[:tr.lxi], u, t) for p in particles]) + noise

        def logp_xnext_xi(self, particles, next_xi, u, t):
            nx = numpy.asarray(next_xi)
            return numpy.array([tr.logp_xi(p[:tr.lxi], nx[i], u, t) for i, p in enumerate(particles)])

        def logp_xnext_xi_max(self, particles, u, t):
            return numpy.ones(len(particles)) * gauss.logpdf(numpy.zeros(tr.lxi), tr.Qx)

        def measure_nonlin(self, particles, y, t):
            return numpy.array([tr.loglik_xi(p[:tr.lxi], y, t) for p in particles])

        def get_lin_pred_dynamics(self, particles, u, t):
            return (lst("Az", particles, u, t), lst("fz", particles, u, t), lst("Qz", particles, u, t))

        def get_lin_meas_dynamics(self, particles, y, t):
            yy, h = handed(c, y[1:], t, lst("h", particles, None, t),
                           lambda: numpy.array([tr.get("h", p[:tr.lxi], None, t) for p in particles]))
            return (yy, lst("C", particles, None, t), h, lst("R", particles, None, t))

    kw = {}
    for k, a in (("Az", "Az"), ("fz", "fz"), ("Qz", "Qz"), ("C", "C"), ("h", "hz"), ("R", "R")):
        if dep[k] == "const":
            kw[a] = ints_form(c, k, tr.get(k, None, None, 0))
    return made(M, len_xi=tr.lxi, len_z=tr.lz, **kw)
