"""C19: smoothing with the linear states marginalised out."""
import numpy
from hypothesis import strategies as st
from vlib.core import check, expect
from vlib import strat, models, gauss
from vlib.gauss import close
from props.c12 import BOTH
from props.c17 import labels
from props import c18

METHODS = ("full", "mcmc", "ancestor", "mhips", "mhbp")


@st.composite
def dens_case(draw):
    c = draw(models.mlnlg_case(min_steps=1, max_steps=4, Ns=(2, 3, 5)))
    c["unit"] = max(c["unit"], 1e-3)      # information matrices of 1e10 cost too many digits
    c["K"] = draw(st.integers(1, 3))
    c["start"] = draw(st.integers(0, c["n"] - 1))
    c["Psmall"] = draw(strat.oneof(False, False, True))
    return c


@check("C19", dens_case, quick=400, thorough=8000, configs=BOTH, shards=2,
       rule="several measurements or transitions after the particle",
       need=("corr", "noC", "missing", "rb", "lz2"))
def density_of_the_future_given_a_particle(case, rec):
    """Up to a constant of the future trajectory, logp_xnext_full is the log
    density of all future nonlinear states and measurements given the particle."""
    tr = models.MLNLGTruth(case)
    m = models.mlnlg_model(tr, kind="marginalized")
    labels(case, rec)
    rng, lxi, lz, N, K = tr.rng, tr.lxi, tr.lz, case["N"], case["K"]
    T = case["n"]
    s = case["start"]
    rec.nontrivial = T - s > 1
    ys = [tr.y0] + tr.y
    us = list(tr.u) + [None]
    tt = list(range(T + 1))
    width = lxi + lz + lz * lz

    def parts(n):
        p = numpy.zeros((n, width))
        P = numpy.array([models.spd(rng, lz) for _ in range(n)])
        if case["Psmall"]:
            P = P * 1e-3
        xi, z = models.mat(rng, n, lxi, scale=2.0), models.mat(rng, n, lz, scale=2.0)
        m.set_states(p, xi, z, P)
        return p, xi, z, P
    fut = None
    traj = []
    chosen = []
    perm = None
    for t in range(T, s, -1):
        p, xi, z, P = parts(K)
        keep = p.copy()
        find = rng.permutation(K)
        r = m.sample_smooth(part=p, ptraj=None, anc=None, future_trajs=None if fut is None else fut,
                            find=None if fut is None else find, ut=us, yt=ys, tt=tt, cur_ind=t)
        expect(numpy.array_equal(keep, p), "sample_smooth modified the particles")
        expect(numpy.array_equal(r[:, :lxi], xi), "sample_smooth changed the nonlinear states")
        # the trajectory of row k continues with row find[k] of the previous one
        chosen = [[xi[k]] + (chosen[find[k]] if fut is not None else []) for k in range(K)]
        fut = [c18.Stub(r)] + (fut or [])
    p, xi, z, P = parts(N)
    keep = p.copy()
    fkeep = fut[0].pa.part.copy()
    got = numpy.zeros((N, K))
    want = numpy.zeros((N, K))
    for k in range(K):
        got[:, k] = m.logp_xnext_full(part=p, past_trajs=None, pind=None, future_trajs=fut,
                                      find=numpy.zeros(N, dtype=int) + k, ut=us, yt=ys, tt=tt, cur_ind=s)
        for i in range(N):
            J = gauss.Joint()
            zv = J.noise(z[i], P[i])
            x = xi[i]
            obs = []
            for t in range(s, T):
                w = J.noise(numpy.zeros(lxi + lz), tr.Q(x, us[t], t))
                nx = zv.lin(tr.A(x, us[t], t)) + tr.f(x, us[t], t) + w
                x = chosen[k][t - s]
                obs.append((nx.part(slice(0, lxi)), x))
                zv = nx.part(slice(lxi, lxi + lz))
                if ys[t + 1] is not None:
                    C, h, R = tr.meas(x, t + 1)
                    obs.append((zv.lin(C) + h + J.noise(numpy.zeros(len(R)), R), ys[t + 1]))
            want[i, k] = J.logpdf(obs, [])
    expect(numpy.array_equal(keep, p) and numpy.array_equal(fkeep, fut[0].pa.part), "logp_xnext_full modified its inputs")
    dg, dw = got - got[:1], want - want[:1]
    expect(close(dg, dw, rtol=1e-6, atol=1e-7), "log densities of the future given the particles (relative to the first) %s, exact %s",
           dg.tolist(), dw.tolist())


@st.composite
def smooth_case(draw):
    c = draw(models.mlnlg_case(max_steps=4, Ns=(1, 2, 4, 6)))
    c["unit"] = max(c["unit"], 1e-3)
    c["smoother"] = draw(st.sampled_from(METHODS))
    c["M"] = draw(strat.oneof(1, 2, 4))
    c["res"] = draw(strat.oneof(0.0, 0.5, 1.0))
    return c


@check("C19", smooth_case, quick=250, thorough=5000, configs=BOTH, shards=2,
       rule="at least two steps and a measurement", need=METHODS + ("corr", "missing", "rb"))
def trajectories_carry_the_smoothed_linear_states(case, rec):
    tr = models.MLNLGTruth(case)
    m = models.mlnlg_model(tr, kind="marginalized")
    labels(case, rec)
    rec.label(case["smoother"])
    numpy.random.seed(case["seed"])
    sim = c18.simulate(tr, m, case, case["N"], case["M"], case["smoother"], c18.OPTS.get(case["smoother"]))
    sest = sim.get_smoothed_estimates()
    T = case["n"] + 1
    rec.nontrivial = T > 2 and any(v is not None for v in [tr.y0] + tr.y)
    expect(sest.shape == (T, case["M"], tr.lxi + tr.lz + 2 * tr.lz ** 2), "smoothed estimates of shape %s", sest.shape)
    c18.check_rts(sest, tr)


@check("C19", c18.linear_case, quick=2, thorough=40, shards=2, rule="at least two measurements")
def linear_model_full(case, rec):
    tr = c18.LinearTruth(case)
    c18.end_to_end(case, rec, tr, models.mlnlg_model(tr, kind="marginalized"), "full", None, 60, 15)
