"""C17: Rao-Blackwellised filtering of mixed linear/nonlinear Gaussian models."""
import numpy
from hypothesis import strategies as st
from vlib.core import check, expect
from vlib import strat, models
from vlib.gauss import close, logpdf
from props.c12 import BOTH
from props.c15 import whitened_ok, whiten

TOL = dict(rtol=1e-6, atol=1e-7)


@st.composite
def filter_case(draw):
    c = draw(models.mlnlg_case(max_steps=5, Ns=(1, 2, 3, 6), certain=True))
    c["res"] = draw(strat.oneof(0.0, 0.0, 0.9, 1.0))
    c["filter"] = draw(strat.oneof("PF", "PF", "PF", "APF"))
    return c


def lineage(traj, i, lxi):
    xis = []
    k = i
    for s in range(len(traj) - 1, -1, -1):
        xis.append(numpy.array(traj[s].pa.part[k][:lxi]))
        if s > 0:
            k = int(traj[s].ancestors[k])
    return xis[::-1]


def labels(case, rec):
    rec.label("corr" if case["corr"] else "uncorr", "noC" if case["noC"] else "C",
              "missing" if any(case["miss"]) else "", "rb" if case["rb"] else "",
              "first" if case["first"] else "", "ly%d" % case["ly"], "lz%d" % case["lz"],
              "set_dynamics" if case["how"] == "set" else "", "certain-" + case["certain"] if case.get("certain") else "")
    for k, v in case["dep"].items():
        rec.label("%s-%s" % (k, v))


@check("C17", filter_case, quick=350, thorough=7000, configs=BOTH, shards=2,
       rule="at least two steps, a measurement, and several particles",
       need=("corr", "noC", "missing", "rb", "set_dynamics", "APF"))
def filtering(case, rec):
    """Every particle carries the mean and covariance of the linear states given
    its own nonlinear lineage and all measurements so far (also through the
    information in the nonlinear transitions), and its weight changes by the
    log predictive density of the measurement given that lineage."""
    tr = models.MLNLGTruth(case)
    m = models.mlnlg_model(tr)
    L = models.lib()
    labels(case, rec)
    rec.label(case["filter"])
    y = ([tr.y0] if case["first"] else []) + tr.y
    sim = L.simulator.Simulator(m, u=tr.u, y=y)
    numpy.random.seed(case["seed"])
    sim.simulate(case["N"], 0, filter=case["filter"], smoother=None, meas_first=case["first"], res=case["res"])
    traj = sim.pt.traj
    T = case["n"] + 1
    expect(len(traj) == T, "%d time indices, want %d", len(traj), T)
    ys = [tr.y0] + tr.y
    rec.nontrivial = T > 2 and case["N"] > 1 and any(v is not None for v in ys)
    lxi, lz = tr.lxi, tr.lz
    for t in range(T):
        part = traj[t].pa.part
        for i in range(case["N"]):
            xis = lineage(traj[:t + 1], i, lxi)
            J, zs, obs = tr.chain(xis, ys=ys[:t + 1])
            z, P = J.condition([zs[t]], [(o[2], o[3]) for o in obs])
            expect(close(part[i, lxi:lxi + lz], z, **TOL), "mean of z at %d given the lineage: %s, exact %s",
                   t, part[i, lxi:lxi + lz].tolist(), z.tolist())
            expect(close(part[i, lxi + lz:lxi + lz + lz * lz], P.ravel(), **TOL),
                   "covariance of z at %d given the lineage: %s, exact %s", t,
                   part[i, lxi + lz:lxi + lz + lz * lz].tolist(), P.ravel().tolist())
            if ys[t] is not None and case["res"] == 0.0 and case["filter"] == "PF":
                a = int(traj[t].ancestors[i]) if t else 0
                base = traj[t - 1].pa.w[a] if t else -numpy.log(case["N"])
                got = traj[t].pa.w[i] + traj[t].pa.w_offset - base
                now = [(o[2], o[3]) for o in obs if o[0] == t and o[1] == "y"]
                bef = [(o[2], o[3]) for o in obs if not (o[0] == t and o[1] == "y")]
                want = J.logpdf(now, bef)
                expect(abs(got - want) <= 1e-6 * (1 + abs(want)), "log-weight change at %d: %r, exact %r", t, got, want)
                rec.label("weights")


@st.composite
def step_case(draw):
    return draw(models.mlnlg_case(min_steps=1, max_steps=3, Ns=(1, 2, 4)))


def particles(tr, m, case):
    """random valid particles and the time they belong to"""
    rng = tr.rng
    N = case["N"]
    xi = models.mat(rng, N, tr.lxi, scale=2.0)
    unit = tr.c.get("unit", 1.0)
    z = models.mat(rng, N, tr.lz, scale=2.0)
    P = numpy.array([models.spd(rng, tr.lz) for _ in range(N)])
    xi, z, P = models.some_copies(rng, xi, z * unit, P * unit ** 2)
    part = numpy.zeros((N, tr.lxi + tr.lz + tr.lz ** 2))
    m.set_states(part, xi, z, P)
    t = int(rng.randint(0, 5))
    u = float(rng.uniform(-1, 1)) if case["u"] else None
    return part, xi, z.reshape((N, -1, 1)), P, u, t


@check("C17", step_case, quick=300, thorough=6000, configs=BOTH, shards=1,
       rule="several particles with particle dependent matrices")
def one_step_quantities(case, rec):
    """Accessors, propagation, transition densities and first-stage weights of
    arbitrary particle sets."""
    tr = models.MLNLGTruth(case)
    m = models.mlnlg_model(tr)
    part, xi, z, P, u, t = particles(tr, m, case)
    N, lxi, lz = case["N"], tr.lxi, tr.lz
    rec.nontrivial = N > 1 and "part" in case["dep"].values()
    labels(case, rec)
    keep = part.copy()
    a, b, c = m.get_states(part)
    expect(close(numpy.array(a).reshape((N, -1)), xi) and close(numpy.array(b).reshape((N, -1)), z.reshape((N, -1))) and
           close(numpy.array(c).reshape((N, -1)), P.reshape((N, -1))), "set_states/get_states do not round-trip")
    A = [tr.A(x, u, t) for x in xi]
    f = [tr.f(x, u, t) for x in xi]
    Q = [tr.Q(x, u, t) for x in xi]
    S = [Q[i] + A[i].dot(P[i]).dot(A[i].T) for i in range(N)]
    mu = [(A[i].dot(z[i]) + f[i]).ravel() for i in range(N)]
    nxt = models.mat(tr.rng, N, lxi + lz, scale=2.0)
    same = lambda name, got, want: expect(
        numpy.size(got) == numpy.size(want) and close(numpy.ravel(got), numpy.ravel(want), **TOL),
        "%s gives %s, exact %s", name, numpy.ravel(got).tolist(), numpy.ravel(want).tolist())
    same("logp_xnext", m.logp_xnext(part, nxt, u, t), [logpdf(nxt[i] - mu[i], S[i]) for i in range(N)])
    same("logp_xnext to one state", m.logp_xnext(part, nxt[:1], u, t), [logpdf(nxt[0] - mu[i], S[i]) for i in range(N)])
    find = numpy.arange(N)[::-1]
    fut = numpy.zeros((N, part.shape[1]))
    fut[:, :lxi + lz] = nxt
    same("logp_xnext_singlestep", m.logp_xnext_singlestep(part, None, None, fut, find, [u] * (t + 1), None, list(range(t + 1)), t),
         [logpdf(nxt[find[i]][:lxi] - mu[i][:lxi], S[i][:lxi, :lxi]) for i in range(N)])
    same("prediction of xi", m.pred_xi(part, u, t), [q[:lxi] for q in mu])
    expect(numpy.array_equal(part, keep), "evaluating densities modified the particles")
    # the conditional prediction of z given the next xi
    noise = models.mat(tr.rng, N, lxi)
    p = part.copy()
    p = m.update(p, u, t, noise)
    for i in range(N):
        xn = mu[i][:lxi] + noise[i]
        K = numpy.linalg.solve(S[i][:lxi, :lxi], S[i][:lxi, lxi:]).T
        zn = mu[i][lxi:] + K.dot(noise[i])
        Pn = S[i][lxi:, lxi:] - K.dot(S[i][:lxi, lxi:])
        same("next xi", p[i, :lxi], xn)
        same("mean of z given the next xi", p[i, lxi:lxi + lz], zn)
        same("covariance of z given the next xi", p[i, lxi + lz:lxi + lz + lz * lz], Pn.ravel())
    q = m.cond_predict_single_step(part, None, None, p[:, :lxi + lz], numpy.arange(N), [u] * (t + 1), None, list(range(t + 1)), t)
    same("cond_predict_single_step", q, p)
    expect(numpy.array_equal(part, keep), "cond_predict_single_step modified the particles")
    # first stage weights: likelihood after the mean prediction
    y = models.mat(tr.rng, tr.nrows(t + 1), 1, scale=2.0)
    want = []
    for i in range(N):
        xn = mu[i][:lxi]
        C, h, R = tr.meas(xn, t + 1)
        Pn = S[i][lxi:, lxi:] - S[i][lxi:, :lxi].dot(numpy.linalg.solve(S[i][:lxi, :lxi], S[i][:lxi, lxi:]))
        want.append(logpdf(y.ravel() - C.dot(mu[i][lxi:]) - h.ravel(), C.dot(Pn).dot(C.T) + R))
    same("eval_1st_stage_weights", m.eval_1st_stage_weights(part, u, y, t), want)
    expect(numpy.array_equal(part, keep), "first stage weights modified the particles")


@check("C17", step_case, quick=50, thorough=800, shards=2, rule="every case")
def sampling(case, rec):
    """Noise of the nonlinear states, initial particles and the smoothing
    proposal follow the model's laws."""
    case = dict(case, N=2)
    tr = models.MLNLGTruth(case)
    m = models.mlnlg_model(tr)
    part, xi, z, P, u, t = particles(tr, m, case)
    labels(case, rec)
    rec.nontrivial = True
    M = 1500
    lxi, lz = tr.lxi, tr.lz
    idx = numpy.arange(M) % 2
    numpy.random.seed(case["seed"])
    v = m.sample_process_noise(part[idx], u, t)
    expect(v.shape == (M, lxi), "noise of shape %s", v.shape)
    cov = []
    for i in (0, 1):
        A = tr.get("Axi", xi[i], u, t)
        cov.append(tr.get("Qxi", xi[i], u, t) + A.dot(P[i]).dot(A.T))
    W = numpy.array([numpy.linalg.solve(numpy.linalg.cholesky(cov[i]), v[k]) for k, i in enumerate(idx)])
    whitened_ok(W, "noise of the nonlinear states")
    p = m.create_initial_estimate(M)
    whitened_ok(whiten(p[:, :lxi], tr.xi0, tr.Pxi0), "initial nonlinear states")
    for k in range(0, M, 100):
        z0, P0 = tr.rb(p[k, :lxi])
        expect(close(p[k, lxi:lxi + lz], z0.ravel()) and close(p[k, lxi + lz:], P0.ravel()),
               "initial estimate of z is %s %s, model says %s %s", p[k, lxi:lxi + lz].tolist(), p[k, lxi + lz:].tolist(),
               z0.ravel().tolist(), P0.ravel().tolist())
