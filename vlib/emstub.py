"""A small model whose particles carry the parameters they were simulated
with, and which records every call of the parameter estimation loop."""
import importlib
import numpy


def values(case):
    """the estimates of the script; some runs move in very small steps from
    the first one (0.5), some stay where they are for some iterations"""
    res = [float(v) if not case.get("near") else 0.5 + v * case["near"] for v in case["script"]]
    a, b = case.get("still") or (0, 0)
    res[a:b] = [res[a - 1] if a else 0.5] * len(res[a:b])
    return res


def make(script, bounds_calls=None):
    I = importlib.import_module("pyparticleest.interfaces")

    class Stub(I.ParticleFiltering, I.FFBSi):
        def __init__(self):
            self.events = []
            self.theta = numpy.nan
            self.step = 0
            self.got = []           # (trajs, weights) handed to maximize_weighted
            self.uid = 0.0

        def set_params(self, params):
            self.theta = float(numpy.asarray(params, dtype=float).ravel()[0])
            self.events.append(("set", self.theta))

        def create_initial_estimate(self, N):
            self.events.append(("init", N, self.theta))
            p = numpy.zeros((N, 3))
            p[:, 0] = numpy.random.normal(size=N)
            p[:, 1] = self.theta
            p[:, 2] = self.fresh(N)
            return p

        def fresh(self, N):
            self.uid += N
            return self.uid - N + 1.0 + numpy.arange(N)

        def sample_process_noise(self, particles, u, t):
            return numpy.random.normal(size=len(particles))

        def update(self, particles, u, t, noise):
            particles[:, 0] = 0.8 * particles[:, 0] + noise
            particles[:, 1] = self.theta
            particles[:, 2] = self.fresh(len(particles))
            return particles

        def measure(self, particles, y, t):
            if len(numpy.shape(y)) == 0:
                yy = float(y)
            else:
                yy = float(numpy.ravel(y)[0])
            self.events.append(("y", int(t), yy))
            return -0.5 * (particles[:, 0] - yy) ** 2

        def logp_xnext(self, particles, next_part, u, t):
            return -0.5 * (next_part[:, 0] - 0.8 * particles[:, 0]) ** 2

        def sample_smooth(self, part, ptraj, anc, future_trajs, find, ut, yt, tt, cur_ind):
            return part.copy()

        def next(self):
            v = script[self.step % len(script)]
            self.step += 1
            return numpy.array([v])

        def maximize(self, straj):
            self.events.append(("max",))
            self.got.append(straj)
            return self.next()

        def maximize_weighted(self, straj, alltrajs, weights):
            self.events.append(("max",))
            self.got.append((straj, numpy.array(alltrajs, dtype=float), numpy.array(weights, dtype=float)))
            return self.next()
    return Stub()
