"""Dense joint Gaussian oracle: every variable is an affine function of one
vector of independent standard normals; conditioning is done in one step."""
import numpy

L2PI = numpy.log(2 * numpy.pi)


def rnd(rng, *shape, lo=-12, hi=13, den=8.0):
    return rng.randint(lo, hi, shape) / den


def pd(rng, n, base=0.25):
    """positive definite, well conditioned"""
    L = numpy.tril(rng.randint(-4, 5, (n, n)) / 8.0)
    L[numpy.arange(n), numpy.arange(n)] = rng.randint(4, 13, n) / 8.0
    return L.dot(L.T) + base * 0.25 * numpy.eye(n)


def psd(rng, n, rank):
    L = rng.randint(-6, 7, (n, max(rank, 0))) / 8.0
    return L.dot(L.T) if rank else numpy.zeros((n, n))


def sqrt_psd(S):
    S = 0.5 * (S + S.T)
    w, V = numpy.linalg.eigh(S)
    return V * numpy.sqrt(numpy.maximum(w, 0))


class Joint(object):
    def __init__(self):
        self.n = 0

    def noise(self, mean, cov):
        """a new independent Gaussian variable"""
        cov = numpy.atleast_2d(cov)
        L = sqrt_psd(cov)
        d = len(L)
        v = Var(self, numpy.asarray(mean, dtype=float).reshape(-1), {self.n: L})
        self.n += d
        return v

    def stack(self, vs):
        m = numpy.concatenate([v.mean for v in vs]) if vs else numpy.zeros(0)
        G = numpy.zeros((len(m), self.n))
        r = 0
        for v in vs:
            for off, B in v.blocks.items():
                G[r:r + len(v.mean), off:off + B.shape[1]] += B
            r += len(v.mean)
        return m, G

    def condition(self, vs, obs):
        """mean and covariance of stacked vs given obs = [(var, value)]"""
        m, G = self.stack(vs)
        if not obs:
            return m, G.dot(G.T)
        mo, Go = self.stack([o[0] for o in obs])
        val = numpy.concatenate([numpy.asarray(o[1], dtype=float).reshape(-1) for o in obs])
        S = Go.dot(Go.T)
        K = numpy.linalg.solve(S, Go.dot(G.T)).T
        return m + K.dot(val - mo), G.dot(G.T) - K.dot(Go).dot(G.T)

    def logpdf(self, new, obs):
        """log density of new = [(var, value)] given obs"""
        m, P = self.condition([a[0] for a in new], obs)
        val = numpy.concatenate([numpy.asarray(a[1], dtype=float).reshape(-1) for a in new])
        return logpdf(val - m, P)


class Var(object):
    def __init__(self, joint, mean, blocks):
        self.j, self.mean, self.blocks = joint, mean, blocks

    def lin(self, A):
        A = numpy.asarray(A, dtype=float)
        return Var(self.j, A.dot(self.mean), {o: A.dot(B) for o, B in self.blocks.items()})

    def __add__(self, o):
        if isinstance(o, Var):
            b = dict(self.blocks)
            for k, B in o.blocks.items():
                b[k] = b[k] + B if k in b else B
            return Var(self.j, self.mean + o.mean, b)
        return Var(self.j, self.mean + numpy.asarray(o, dtype=float).reshape(-1), self.blocks)

    def part(self, s):
        return Var(self.j, self.mean[s], {o: B[s] for o, B in self.blocks.items()})


def logpdf(err, S):
    err = numpy.asarray(err, dtype=float).reshape(-1)
    S = numpy.atleast_2d(S)
    sign, ld = numpy.linalg.slogdet(S)
    assert sign > 0
    return -0.5 * (len(err) * L2PI + ld + err.dot(numpy.linalg.solve(S, err)))


def close(a, b, rtol=1e-7, atol=1e-8):
    a, b = numpy.asarray(a, dtype=float), numpy.asarray(b, dtype=float)
    if a.size == b.size and a.shape != b.shape:
        a = a.reshape(b.shape)
    return a.shape == b.shape and bool(numpy.allclose(a, b, rtol=rtol, atol=atol * (1 + numpy.max(numpy.abs(b), initial=0))))


def laid(how, a):
    """the same numbers, differently laid out in memory"""
    if a is None or how == "C":
        return a
    a = numpy.asarray(a)
    if how == "F":
        return numpy.asfortranarray(a)
    if how == "ro":
        b = a.copy()
        b.setflags(write=False)
        return b
    if how == "view":                 # every other element of a larger array
        big = numpy.full([2 * n + 1 for n in a.shape], -77, dtype=a.dtype)
        v = big[tuple(slice(1, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    raise ValueError(how)
