"""A model whose particles record where they came from, so that a filter run
can be recomputed exactly from what it stored."""
import numpy
from vlib.core import expect
from vlib.stats import normlog

X, UID, PUID, UU, TT, EPS, NPUID, NU, NT = range(9)
WIDTH = 9


def _num(u):
    return 0.0 if u is None else float(numpy.sum(numpy.asarray(u, dtype=float)))


class Pure(object):
    """The arithmetic of the model (used by the oracle as well)."""

    def __init__(self, p):
        self.p = p                 # dict: a, b, q, r, scale, lik

    def phi(self, x, u, t):
        p = self.p
        return p["a"] * x + p["b"] * numpy.sin(x + 0.3 * t) + _num(u)

    def logtrans(self, x, xn, u, t):
        p = self.p
        return -0.5 * (xn - self.phi(x, u, t)) ** 2 / p["q"] + self.height(x, u, t)

    def height(self, x, u, t):
        """largest value of logtrans over the next state"""
        p = self.p
        r = -0.1 * t + p.get("toff", 0.0)
        if p.get("hs"):
            r = r + p["hs"] * numpy.sin(2.0 * x + 1.5 * t + _num(u))
        return r

    def loglik(self, x, y, t):
        p = self.p
        yv = _num(y)
        l = -p["scale"] * (yv - x - 0.05 * t) ** 2 / p["r"] + p.get("off", 0.0)
        if p["lik"] == "cut":       # bounded support: log 0 for some particles
            far = numpy.abs(yv - x - 0.05 * t) > p["cut"]
            if not numpy.all(far):
                l = numpy.where(far, -numpy.inf, l)
        return l

    def first_stage(self, x, u, y, t):
        """log-likelihood at the predicted mean, deliberately biased: the
        weights have to compensate whatever it is."""
        return -0.3 * self.p["scale"] * (_num(y) - self.phi(x, u, t)) ** 2 / self.p["r"] - 0.02 * t

    def logq(self, x, xn, u, y, t):
        m = self.phi(x, u, t) + 0.25 * (_num(y) - x)
        return -0.5 * (xn - m) ** 2 / (2 * self.p["q"]) - 0.03 * t


class Mixin(object):
    def __init__(self, p):
        self.pure = Pure(p)
        self.p = p
        self.next_uid = 1.0

    def uids(self, n):
        r = self.next_uid + numpy.arange(n)
        self.next_uid += n
        return r

    def fresh(self, x):
        part = numpy.full((len(x), WIDTH), -7.0)
        part[:, X] = x
        part[:, UID] = self.uids(len(x))
        return part

    def create_initial_estimate(self, N):
        return self.fresh(numpy.random.normal(0.0, 1.0, N))


def make_model(p, kind):
    """kind: 'markov' (all Markov interfaces), 'sir', 'nonmarkov'."""
    import pyparticleest.interfaces as I

    class Markov(Mixin, I.ParticleFiltering, I.AuxiliaryParticleFiltering, I.FFBSiRS,
                 I.FFProposeFromMeasure):
        def sample_process_noise(self, particles, u, t):
            n = len(particles)
            v = numpy.empty((n, 4))
            v[:, 0] = numpy.random.normal(0.0, numpy.sqrt(self.p["q"]), n)
            v[:, 1] = particles[:, UID]
            v[:, 2] = _num(u)
            v[:, 3] = t
            return v

        def update(self, particles, u, t, noise):
            particles[:, X] = self.pure.phi(particles[:, X], u, t) + noise[:, 0]
            particles[:, PUID] = particles[:, UID]
            particles[:, UID] = self.uids(len(particles))
            particles[:, UU] = _num(u)
            particles[:, TT] = t
            particles[:, EPS] = noise[:, 0]
            particles[:, NPUID] = noise[:, 1]
            particles[:, NU] = noise[:, 2]
            particles[:, NT] = noise[:, 3]
            return particles

        def measure(self, particles, y, t):
            return self.pure.loglik(particles[:, X], y, t)

        def eval_1st_stage_weights(self, particles, u, y, t):
            return self.pure.first_stage(particles[:, X], u, y, t)

        def logp_xnext(self, particles, next_part, u, t):
            return self.pure.logtrans(particles[:, X], next_part[:, X], u, t)

        def logp_xnext_max(self, particles, u, t):
            return float(numpy.max(self.pure.height(particles[:, X], u, t)))

        def propose_from_y(self, N, y, t):
            part = self.fresh(_num(y) + numpy.random.normal(0.0, 1.0, N))
            part[:, UU] = _num(y)
            part[:, TT] = t
            return part

    class Sir(Mixin, I.SIR):
        def measure(self, particles, y, t):
            return self.pure.loglik(particles[:, X], y, t)

        def qsample(self, particles, u, y, t):
            x = particles[:, X]
            part = self.fresh(self.pure.phi(x, u, t) + 0.25 * (_num(y) - x) +
                              numpy.random.normal(0.0, 1.0, len(x)) * numpy.sqrt(2 * self.p["q"]))
            part[:, PUID] = particles[:, UID]
            part[:, UU] = _num(u)
            part[:, TT] = t
            part[:, EPS] = _num(y)
            return part

        def logp_q(self, particles, next_part, u, y, t):
            return self.pure.logq(particles[:, X], next_part[:, X], u, y, t)

        def logp_xnext(self, particles, next_part, u, t):
            return self.pure.logtrans(particles[:, X], next_part[:, X], u, t)

    class NonMarkov(Mixin, I.ParticleFilteringNonMarkov):
        """Transition and likelihood depend on the previous state of the
        lineage too; everything handed over is checked."""

        def __init__(self, p):
            Mixin.__init__(self, p)
            self.calls = []

        def note(self, what, traj, uvec, yvec, tvec, ancestors):
            self.calls.append(dict(what=what, n=len(traj), u=[None if a is None else _num(a) for a in uvec],
                                   y=None if yvec is None else [None if a is None else _num(a) for a in yvec],
                                   t=[float(a) for a in tvec],
                                   prev=traj[-1].pa.part[ancestors][:, UID].copy()))

        def grand(self, traj, ancestors):
            """x of the parent's parent (or of the parent for step 0)."""
            if len(traj) < 2:
                return numpy.zeros(len(ancestors))
            pa = traj[-1].ancestors[ancestors]
            return traj[-2].pa.part[pa][:, X]

        def sample_process_noise_full(self, ptraj, ancestors, ut, tt):
            self.note("noise", ptraj, ut, None, tt, ancestors)
            n = len(ancestors)
            v = numpy.empty((n, 4))
            v[:, 0] = numpy.random.normal(0.0, numpy.sqrt(self.p["q"]), n) + \
                0.2 * self.grand(ptraj, ancestors)
            v[:, 1] = ptraj[-1].pa.part[ancestors][:, UID]
            v[:, 2] = _num(ut[-1])
            v[:, 3] = tt[-1]
            return v

        def update_full(self, particles, traj, uvec, yvec, tvec, ancestors, noise):
            self.note("update", traj, uvec, yvec, tvec, ancestors)
            u, t = uvec[-1], tvec[-1]
            particles[:, X] = self.pure.phi(particles[:, X], u, t) + noise[:, 0]
            particles[:, PUID] = particles[:, UID]
            particles[:, UID] = self.uids(len(particles))
            particles[:, UU] = _num(u)
            particles[:, TT] = t
            particles[:, EPS] = noise[:, 0]
            particles[:, NPUID] = noise[:, 1]
            particles[:, NU] = noise[:, 2]
            particles[:, NT] = noise[:, 3]
            return particles

        def measure_full(self, particles, traj, uvec, yvec, tvec, ancestors):
            if len(tvec) > 1 or tvec[-1] > 0:
                self.note("measure", traj, uvec, yvec, tvec, ancestors)
                prevx = traj[-1].pa.part[ancestors][:, X]
            else:
                prevx = 0.0
            return self.pure.loglik(particles[:, X] + 0.1 * prevx, yvec[-1], tvec[-1])

    return {"markov": Markov, "sir": Sir, "nonmarkov": NonMarkov}[kind](p)


FILTERS = ("pf", "apf", "sir", "pfy", "cpf", "cpfas", "cpfyas", "csiras")
CONDITIONAL = ("cpf", "cpfas", "cpfyas", "csiras")
KIND = {"sir": "sir", "csiras": "sir"}


def cond_traj(rng, n, others=0):
    """A conditional trajectory: the first particle of every time index (there
    may be `others`, which are of no concern to the filter)."""
    from pyparticleest.filter import TrajectoryStep, ParticleApproximation
    steps = numpy.empty(n, dtype=object)
    for k in range(n):
        part = numpy.full((1 + others, WIDTH), -9.0)
        part[:, X] = rng.normal(size=1 + others)
        part[0, UID] = -1000.0 - k
        steps[k] = TrajectoryStep(ParticleApproximation(part))
    return steps


class Snap(object):
    def __init__(self, step):
        self.part = numpy.array(step.pa.part, copy=True)
        self.w = numpy.array(step.pa.w, copy=True)
        self.off = float(step.pa.w_offset)
        self.anc = numpy.array(step.ancestors, copy=True)


class Run(object):
    pass


def run(case, kind=None):
    """Drive a ParticleTrajectory through the history in the case.

    case: filter, N, res, seed, pre (preallocate T), first (meas_first),
          steps: list of [u, y] (None allowed), split (bool per step: forward
          without y, then measure), par: model parameters.
    The arrays handed over are checked to be left alone by the caller of this
    function where needed.  Returns a Run with snapshots taken when each step was
    completed."""
    from pyparticleest.filter import ParticleTrajectory
    filt = case["filter"]
    r = Run()
    r.dead = False
    r.case = case
    r.model = make_model(case["par"], kind or KIND.get(filt, "markov"))
    r.pure = r.model.pure
    rng = numpy.random.RandomState(case["seed"])
    numpy.random.seed(rng.randint(2 ** 31 - 1))
    steps = case["steps"]
    n = len(steps) + 1
    opts = {}
    r.ctraj = None
    if filt in CONDITIONAL:
        r.ctraj = cond_traj(rng, n, case.get("others", 0) if filt != "cpfyas" else 0)
        opts = {"cond_traj": r.ctraj}
    kw = {}
    if case["pre"]:
        kw["T"] = n
    if filt in CONDITIONAL and case["filter_case"]:
        filt = filt.upper()
    elif case["filter_case"]:
        filt = filt.upper()
    r.pt = ParticleTrajectory(r.model, case["N"], case["res"], filter=filt, filter_options=opts, **kw)
    r.snaps = []
    r.returned = [None]
    r.u = [None if s[0] is None else numpy.asarray(s[0], dtype=float) for s in steps] + [None]
    r.y = [None] + [None if s[1] is None else numpy.asarray(s[1], dtype=float) for s in steps]
    if case["first"] is not None:
        r.y[0] = numpy.asarray(case["first"], dtype=float)
        r.pt.measure(r.y[0])
    first_done = case["first"] is not None
    for k in range(len(steps)):
        if k == 0 and first_done:
            r.snaps.append(Snap(r.pt[0]))
        if case["split"][k] and r.y[k + 1] is not None:
            ret = r.pt.forward(r.u[k], None)
            if k == 0 and not first_done:
                r.snaps.append(Snap(r.pt[0]))
            r.pt.measure(r.y[k + 1])
        else:
            ret = r.pt.forward(r.u[k], r.y[k + 1])
            if k == 0 and not first_done:
                r.snaps.append(Snap(r.pt[0]))
        r.returned.append(ret)
        r.snaps.append(Snap(r.pt[k + 1]))
        if case["par"]["lik"] == "cut" and kind is None and \
                not numpy.any(numpy.isfinite(expected_logw(r, k + 1))):
            # no particle is compatible with the data any more: outside the
            # domain of every filter, end the history here
            r.snaps.pop()
            r.returned.pop()
            r.dead = True
            break
    return r


def logw_before(r, k):
    """Expected normalised log-weights of step k just before any resampling for
    step k+1 -- from what the filter stored at step k."""
    return normlog(r.snaps[k].w)


def neff(logw):
    w = numpy.exp(normlog(logw))
    return 1.0 / numpy.sum(w ** 2)


def trigger_weights(r, k):
    """Log weights that decide on/steer the resampling in going to step k."""
    prev = logw_before(r, k - 1)
    if r.case["filter"] == "apf" and r.y[k] is not None and not r.case["split"][k - 1]:
        prev = normlog(prev + r.pure.first_stage(r.snaps[k - 1].part[:, X], r.u[k - 1], r.y[k], k - 1))
    return prev


def resampled(r, k):
    """What the filter reported."""
    return bool(r.returned[k])


def expected_logw(r, k):
    """Expected log-weights (up to a constant) of step k given everything
    stored at step k-1, the recorded ancestors and the new particles."""
    c, filt, pure = r.case, r.case["filter"], r.pure
    s = r.snaps[k]
    x = s.part[:, X]
    N = len(x)
    if k == 0:
        w = numpy.zeros(N)
        if r.y[0] is not None and filt not in ("pfy", "cpfyas"):
            w = w + pure.loglik(x, r.y[0], 0)
        return w
    p = r.snaps[k - 1]
    px = p.part[s.anc][:, X]
    u, y, t = r.u[k - 1], r.y[k], k - 1
    one_step = not c["split"][k - 1]
    if filt in CONDITIONAL:
        base = numpy.zeros(N)
    elif resampled(r, k):
        base = numpy.zeros(N)
    else:
        base = logw_before(r, k - 1)[s.anc]
    if filt in ("pf", "cpf", "cpfas"):
        return base + (pure.loglik(x, y, k) if y is not None else 0.0)
    if filt == "apf":
        if y is None:
            return base
        l1 = pure.first_stage(px, u, y, t) if one_step else 0.0
        if resampled(r, k):
            # resampled according to w*l1: compensate for having used l1
            return base + pure.loglik(x, y, k) - l1
        return base + pure.loglik(x, y, k)
    if filt in ("pfy", "cpfyas"):
        return base + pure.logtrans(px, x, u, t)
    # sir, csiras
    return base + pure.loglik(x, y, k) + pure.logtrans(px, x, u, t) - pure.logq(px, x, u, y, t)


def close_logw(a, b):
    """Equal normalised weights; log accuracy relative to their magnitude."""
    a, b = normlog(a), normlog(b)
    if numpy.any(numpy.isnan(a)):
        return False
    fa, fb = numpy.isfinite(a), numpy.isfinite(b)
    # tiny weights may underflow on either side
    small = (a < -600) & (b < -600)
    ok = small | (fa == fb)
    both = fa & fb
    tol = 1e-9 * (1.0 + numpy.abs(b[both]))
    okv = numpy.ones(len(a), dtype=bool)
    okv[both] = numpy.abs(a[both] - b[both]) <= tol
    return bool(numpy.all(ok & (okv | small)))


__all__ = [n for n in dir() if not n.startswith("_")]
assert expect
