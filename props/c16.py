"""C16: linear time-varying models: exact Kalman filter, likelihood and RTS
smoother through the whole filter/smoother pipeline."""
import numpy
from hypothesis import strategies as st
from vlib.core import check, expect
from vlib import strat, models
from vlib.gauss import close
from props.c12 import BOTH

METHODS = ("full", "mcmc", "ancestor")


@st.composite
def case_st(draw):
    c = draw(models.ltv_case(max_steps=6))
    c["N"] = draw(strat.oneof(1, 1, 2, 5))
    c["M"] = draw(strat.oneof(1, 1, 2, 4))
    c["smoother"] = draw(st.sampled_from(METHODS))
    c["twice"] = draw(st.booleans())
    return c


def simulate(tr, case, L=None):
    m = models.ltv_model(tr, L)
    L = L or models.lib()
    y = ([tr.y0] if case["first"] else []) + tr.y
    sim = L.simulator.Simulator(m, u=tr.u, y=y)
    numpy.random.seed(case["seed"])
    kw = dict(num_part=case["N"], num_traj=case["M"], filter="PF", smoother=case["smoother"],
              meas_first=case["first"], res=0.5)
    sim.simulate(**kw)
    if case["twice"]:
        sim.simulate(**kw)
    return sim


@check("C16", case_st, quick=400, thorough=8000, configs=BOTH, shards=2,
       rule="at least two steps and at least one measurement", need=METHODS + ("missing", "time-varying"))
def pipeline(case, rec):
    tr = models.LTVTruth(case)
    sim = simulate(tr, case)
    J, zs, obs = tr.joint()
    lz, T = tr.lz, case["n"] + 1
    rec.label(case["smoother"], "missing" if any(case["miss"]) else "",
              "time-varying" if "time" in case["dep"].values() else "")
    rec.nontrivial = T > 2 and len(obs) > 0
    tol = dict(rtol=1e-6, atol=1e-7)
    est, w = sim.get_filtered_estimates()
    expect(est.shape == (T, case["N"], lz + lz * lz), "filtered estimates of shape %s", est.shape)
    for t in range(T):
        z, P = J.condition([zs[t]], [o[1:] for o in obs if o[0] <= t])
        for i in range(case["N"]):
            expect(close(est[t, i, :lz], z, **tol), "filtered mean at %d: %s, exact %s", t, est[t, i, :lz].tolist(), z.tolist())
            expect(close(est[t, i, lz:], P.ravel(), **tol), "filtered covariance at %d: %s, exact %s",
                   t, est[t, i, lz:].tolist(), P.ravel().tolist())
        expect(numpy.allclose(w[t], 1.0 / case["N"]), "weights of identical particles %s", w[t].tolist())
    # likelihood of every measurement given the earlier ones
    for t, v, y in obs:
        pa = sim.pt.traj[t].pa
        base = sim.pt.traj[t - 1].pa.w if t else -numpy.log(case["N"])
        got = numpy.ravel(pa.w) + pa.w_offset - base
        want = J.logpdf([(v, y)], [o[1:] for o in obs if o[0] < t])
        expect(numpy.allclose(got, want, rtol=1e-6, atol=1e-7), "log-likelihood at %d: %s, exact %r", t, got.tolist(), want)
    sest = sim.get_smoothed_estimates()
    expect(sest.shape == (T, case["M"], lz + 2 * lz * lz), "smoothed estimates of shape %s", sest.shape)
    allobs = [o[1:] for o in obs]
    for t in range(T):
        z, P = J.condition([zs[t]], allobs)
        M = None
        if t + 1 < T:
            _m, C = J.condition([zs[t], zs[t + 1]], allobs)
            M = C[:lz, lz:]
        for j in range(case["M"]):
            expect(close(sest[t, j, :lz], z, **tol), "smoothed mean at %d: %s, exact %s", t, sest[t, j, :lz].tolist(), z.tolist())
            expect(close(sest[t, j, lz:lz + lz * lz], P.ravel(), **tol), "smoothed covariance at %d: %s, exact %s",
                   t, sest[t, j, lz:lz + lz * lz].tolist(), P.ravel().tolist())
            if M is not None:
                expect(close(sest[t, j, lz + lz * lz:], M.ravel(), **tol),
                       "cross covariance of %d and %d: %s, exact %s", t, t + 1, sest[t, j, lz + lz * lz:].tolist(), M.ravel().tolist())


@check("C16", case_st, quick=150, thorough=2000, rule="every case")
def particles_are_only_written_in_place(case, rec):
    """measure and update return what they write and only use their own
    particle row; constant matrices handed in by the user are not changed."""
    tr = models.LTVTruth(case)
    m = models.ltv_model(tr)
    rec.nontrivial = True
    keep = {k: v.copy() for k, v in vars(tr).items() if isinstance(v, numpy.ndarray)}
    one = m.create_initial_estimate(1)
    two = m.create_initial_estimate(2)
    two[1, :tr.lz] += 1.0
    for t in range(case["n"]):
        a, b = one.copy(), two.copy()
        a = m.update(a, tr.u[t], t, None)
        b = m.update(b, tr.u[t], t, None)
        expect(close(a[0], b[0]), "the estimate of a particle depends on the other particles")
        if tr.y[t] is not None:
            la = m.measure(a, tr.y[t], t + 1)
            lb = m.measure(b, tr.y[t], t + 1)
            expect(len(la) == 1 and len(lb) == 2 and close(la[0], lb[0]), "likelihood depends on the other particles")
            expect(close(a[0], b[0]), "the estimate of a particle depends on the other particles")
        one, two = a, b
    for k, v in keep.items():
        expect(numpy.array_equal(v, getattr(tr, k)), "the matrix %s of the user was changed", k)
