"""C12: the Kalman filter/smoother primitives are exact Gaussian conditioning."""
import sys
import numpy
from hypothesis import strategies as st
from vlib.core import check, expect
from vlib import strat, gauss
from vlib.gauss import rnd, pd, psd, close, laid

BOTH = ("pure", "ext")


def kmod():
    m = sys.modules.get("pyparticleest.utils.ckalman")
    if m is None:
        import pyparticleest.utils.kalman as m
    return m


@st.composite
def chain_case(draw):
    n = draw(strat.size(st.integers(1, 4), 8, 15, 40))
    ly = draw(strat.size(st.integers(1, 3), 4, 6))
    ny = draw(st.lists(st.sampled_from(["y", "y", "none", "twice"]), min_size=n, max_size=n))
    return dict(lz=draw(strat.size(st.integers(1, 3), 4, 6)), ly=ly, y=ny, seed=draw(strat.seeds), h=draw(st.booleans()),
                q=draw(strat.oneof("full", "full", "low", "zero")), scalar=draw(st.booleans()) and ly == 1,
                inplace=draw(st.booleans()), stored=draw(st.booleans()), yint=draw(st.booleans()),
                p0=draw(strat.oneof("full", "zero")), lay=draw(strat.oneof("C", "C", "F", "view", "ro")), unit=draw(strat.oneof(1.0, 1.0, 1e-3, 1e-5, 1e4)))


@check("C12", chain_case, quick=400, thorough=8000, configs=BOTH, rule="at least one measurement and two steps",
       need=("stored", "inplace", "scalar", "singularQ", "twice"))
def forward_backward(case, rec):
    """A run of predictions and measurement updates is the conditional law in
    the joint Gaussian of all states and measurements; the log-likelihoods add
    up to the joint log density; one backward pass gives the smoothed moments
    and the cross covariance of successive states."""
    k = kmod()
    rng = numpy.random.RandomState(case["seed"])
    lz, ly = case["lz"], case["ly"]
    J = gauss.Joint()
    unit = case["unit"]     # what states and measurements are measured in
    vu, pu = unit, unit ** 2
    rec.label("unit%g" % unit)
    z0, P0 = rnd(rng, lz, 1) * vu, pu * (pd(rng, lz) if case["p0"] == "full" else numpy.zeros((lz, lz)))
    zv = [J.noise(z0, P0)]
    lay = lambda *a: [laid(case["lay"], v) for v in a]
    own = lambda *a: [laid(case["lay"], v) if case["lay"] != "ro" else v for v in a]      # (updated in place)
    rec.label("layout " + case["lay"])
    z, P = own(z0.copy(), P0.copy())
    kf = k.KalmanSmoother(lz)
    obs, stored, dyn = [], [], []
    total = 0.0
    tol = dict(rtol=1e-6, atol=1e-8)

    def measure(z, P):
        C, R = rnd(rng, ly, lz), pd(rng, ly) * pu
        h = rnd(rng, ly, 1) * vu if case["h"] else None
        y = rnd(rng, ly, 1) * vu
        if case["yint"] and unit >= 1:
            y = y.round().astype(int)
        y, C, R, h = lay(y, C, R, h)
        hv = numpy.zeros((ly, 1)) if h is None else h
        yv = zv[-1].lin(C) + hv + J.noise(numpy.zeros(ly), R)
        want = J.logpdf([(yv, y)], obs)
        ycopy, Ccopy, Rcopy = y.copy(), C.copy(), R.copy()
        if case["scalar"]:
            rec.label("scalar")
            lp = kf.measure_full_scalar(y, z, P, C, h, R)
        elif case["stored"]:
            rec.label("stored")
            k2 = k.KalmanFilter(lz, C=C, R=R, h_k=h)
            lp = k2.measure(y, z, P)
        else:
            lp = kf.measure_full(y, z, P, C, h, R)
        expect(numpy.array_equal(y, ycopy) and numpy.array_equal(C, Ccopy) and numpy.array_equal(R, Rcopy),
               "the measurement or its matrices were modified")
        expect(close(numpy.ravel(lp), [want], **tol), "log-likelihood %s, exact %s", numpy.ravel(lp), want)
        obs.append((yv, y))
        m, S = J.condition([zv[-1]], obs)
        expect(close(z.ravel() / vu, m / vu, **tol), "measured mean %s, exact %s", z.ravel(), m)
        expect(close(P / pu, S / pu, **tol), "measured covariance %s, exact %s", P.tolist(), S.tolist())
        return want

    for step in case["y"]:
        for _ in range({"y": 1, "none": 0, "twice": 2}[step]):
            total += measure(z, P)
        if step == "twice":
            rec.label("twice")
        stored.append((z.copy(), P.copy()))
        A, f = rnd(rng, lz, lz), rnd(rng, lz, 1) * vu
        if len(case["y"]) > 4 or lz > 3:     # (no growth over long runs)
            A = A / lz
        if case["q"] == "full":
            Q = pd(rng, lz) * pu
        else:
            rec.label("singularQ")
            Q = psd(rng, lz, lz - 1 if case["q"] == "low" else 0) * pu
        A, f, Q = lay(A, f, Q)
        dyn.append((A, f, Q))
        zv.append(zv[-1].lin(A) + f + J.noise(numpy.zeros(lz), Q))
        if case["inplace"]:
            rec.label("inplace")
            (z2, P2) = kf.predict_full_inplace(z, P, A, f, Q)
            expect(numpy.array_equal(z2, z) and numpy.array_equal(P2, P), "in-place prediction")
        elif case["stored"]:
            k2 = k.KalmanFilter(lz, A=A, f_k=f)
            k2.set_dynamics(Q=Q)
            (za, Pa) = k2.predict(z, P)
            k2.z, k2.P = z.copy(), P.copy()
            k2.time_update()
            expect(numpy.array_equal(za, k2.z) and numpy.array_equal(Pa, k2.P), "time_update() differs from predict()")
            expect(numpy.array_equal(z, stored[-1][0]) and numpy.array_equal(P, stored[-1][1]), "predict() changed its arguments")
            z, P = own(za, Pa)
        else:
            keep = z.copy(), P.copy()
            zo, Po = z, P
            (z, P) = kf.predict_full(z, P, A, f, Q)
            expect(numpy.array_equal(zo, keep[0]) and numpy.array_equal(Po, keep[1]),
                   "predict_full() changed its arguments")
            z, P = own(z, P)
        m, S = J.condition([zv[-1]], obs)
        expect(close(z.ravel() / vu, m / vu, **tol) and close(P / pu, S / pu, **tol), "prediction (%s, %s), exact (%s, %s)",
               z.ravel(), P.tolist(), m, S.tolist())
    total += measure(z, P)
    expect(close([total], [J.logpdf(obs, [])], **tol), "sum of log-likelihoods")
    rec.nontrivial = len(case["y"]) >= 2 and len(obs) >= 2
    # backward pass
    zs, Ps = z.copy(), P.copy()
    for i in reversed(range(len(stored))):
        A, f, Q = dyn[i]
        Pp = A.dot(stored[i][1]).dot(A.T) + Q
        if numpy.linalg.cond(Pp) > 1e7:
            rec.label("singular-prediction")
            break
        zf, Pf = lay(stored[i][0].copy(), stored[i][1].copy())
        zs, Ps = lay(zs, Ps)
        (zs, Ps, Ms) = kf.smooth(zf, Pf, zs, Ps, A, f, Q)
        expect(numpy.array_equal(zf, stored[i][0]) and numpy.array_equal(Pf, stored[i][1]), "smooth() changed its arguments")
        m, S = J.condition([zv[i], zv[i + 1]], obs)
        t2 = dict(rtol=1e-5, atol=1e-7)
        expect(close(zs.ravel() / vu, m[:lz] / vu, **t2) and close(Ps / pu, S[:lz, :lz] / pu, **t2),
               "smoothed (%s, %s), exact (%s, %s)", zs.ravel(), Ps.tolist(), m[:lz], S[:lz, :lz].tolist())
        expect(close(Ms / pu, S[:lz, lz:] / pu, **t2), "cross covariance of successive states %s, exact %s",
               Ms.tolist(), S[:lz, lz:].tolist())
    if case["q"] == "full":
        rec.label("smoothed")


@st.composite
def direct_case(draw):
    return dict(ly=draw(st.integers(1, 3)), lz=draw(st.integers(1, 3)), h=draw(st.booleans()), C=draw(st.booleans()),
                seed=draw(strat.seeds), yint=draw(st.booleans()))


@check("C12", direct_case, quick=300, thorough=4000, configs=BOTH, rule="affine term or no measurement matrix",
       need=("noC", "noh"))
def without_measurement_matrix(case, rec):
    """Without C the measurement is independent of the state: nothing is
    updated and the likelihood is the one of the noise; the predicted
    measurement error is y - C z - h."""
    k = kmod()
    rng = numpy.random.RandomState(case["seed"])
    lz, ly = case["lz"], case["ly"]
    z, P = rnd(rng, lz, 1), pd(rng, lz)
    C = rnd(rng, ly, lz) if case["C"] else None
    h = rnd(rng, ly, 1) if case["h"] else None
    R, y = pd(rng, ly), rnd(rng, ly, 1)
    if case["yint"]:
        y = y.round().astype(int)
    kf = k.KalmanFilter(lz)
    rec.label("noC" if C is None else None, "noh" if h is None else None)
    rec.nontrivial = C is None or h is not None
    want = y - (0 if C is None else C.dot(z)) - (0 if h is None else h)
    got = kf.measurement_diff(y, z, C, h)
    expect(close(got, want), "measurement error %s, expected %s", got, want)
    if C is None:
        z1, P1 = z.copy(), P.copy()
        lp = kf.measure_full(y, z1, P1, None, h, R)
        expect(numpy.array_equal(z1, z) and numpy.array_equal(P1, P), "the estimate changed")
        expect(close(numpy.ravel(lp), [gauss.logpdf(want, R)]), "log-likelihood %s", lp)
        if ly == 1:
            lp = kf.measure_full_scalar(y, z1, P1, None, h, R)
            expect(numpy.array_equal(z1, z) and numpy.array_equal(P1, P), "the estimate changed (scalar)")
            expect(close(numpy.ravel(lp), [gauss.logpdf(want, R)]), "scalar log-likelihood %s", lp)


@st.composite
def meta_case(draw):
    return dict(lz=draw(strat.size(st.integers(1, 3), 5)), ly=draw(strat.size(st.integers(2, 3), 4, 6)), seed=draw(strat.seeds))


@check("C12", meta_case, quick=200, thorough=4000, configs=BOTH, rule="every case")
def one_at_a_time(case, rec):
    """Independent measurement components may be processed together, one at a
    time in any order, or through the scalar routine."""
    k = kmod()
    rng = numpy.random.RandomState(case["seed"])
    lz, ly = case["lz"], case["ly"]
    z, P, C, h = rnd(rng, lz, 1), pd(rng, lz), rnd(rng, ly, lz), rnd(rng, ly, 1)
    R, y = numpy.diag(rng.randint(1, 9, ly) / 4.0), rnd(rng, ly, 1)
    kf = k.KalmanFilter(lz)
    za, Pa = z.copy(), P.copy()
    la = float(numpy.ravel(kf.measure_full(y, za, Pa, C, h, R))[0])
    rec.nontrivial = True
    for fn in (kf.measure_full, kf.measure_full_scalar):
        zb, Pb, lb = z.copy(), P.copy(), 0.0
        for i in rng.permutation(ly):
            s = slice(i, i + 1)
            lb += float(numpy.ravel(fn(y[s], zb, Pb, C[s], h[s], R[s, s]))[0])
        expect(close(zb, za) and close(Pb, Pa) and close([lb], [la]), "one at a time: %s %s %s, together: %s %s %s",
               zb.ravel(), Pb.tolist(), lb, za.ravel(), Pa.tolist(), la)
