"""Hypothesis strategies producing plain JSON data."""
from hypothesis import strategies as st

seeds = st.integers(0, 2 ** 31 - 1)


def num(lo=-24, hi=24, den=8):
    return st.integers(lo, hi).map(lambda i: i / float(den))


def oneof(*a):
    return st.sampled_from(list(a))


@st.composite
def size(draw, small, *big):
    """a small size (a strategy), now and then one of the big ones"""
    if draw(st.integers(0, 13)) == 13:
        return draw(st.sampled_from(big))
    return draw(small)


@st.composite
def trace_params(draw, extreme=False):
    p = dict(a=draw(num(-8, 8)), b=draw(num(-8, 8)), q=draw(num(1, 16)), r=draw(num(1, 16)),
             scale=draw(oneof(0.1, 1.0, 1.0, 5.0)), off=0.0, toff=0.0, lik="gauss", cut=1.0)
    p["lik"] = draw(oneof("gauss", "gauss", "cut"))
    p["cut"] = draw(oneof(0.5, 1.5, 3.0))
    if extreme:
        p["scale"] = draw(oneof(1.0, 100.0, 1e4, 1e6))
        p["off"] = draw(oneof(0.0, -1e3, -1e5, -1e7, 1e3, 1e5))
        p["toff"] = draw(oneof(0.0, -1e3, -1e6, 1e4))
    return p


@st.composite
def trace_case(draw, filters, min_steps=1, max_steps=6, extreme=False, Ns=None):
    filt = draw(st.sampled_from(list(filters)))
    conditional = filt in ("cpf", "cpfas", "cpfyas", "csiras")
    nomiss = filt in ("sir", "pfy", "cpfyas", "csiras")
    first_ok = filt not in ("pfy", "cpfyas") or True
    Ns = Ns or [1, 2, 3, 4, 5, 7, 10, 16, 25]
    N = draw(size(st.sampled_from(Ns), 40, 150, 257, 600, 1100) if max(Ns) >= 10 else st.sampled_from(Ns))
    if conditional and N < 2:
        N = 2
    n = draw(st.integers(min_steps, max_steps))
    vec = draw(st.booleans())        # vector valued measurements / inputs
    y = (lambda: [draw(num()) for _ in range(2)]) if vec else (lambda: draw(num()))
    steps = []
    for _ in range(n):
        u = draw(st.one_of(st.none(), num())) if not vec else draw(
            st.one_of(st.none(), st.lists(num(), min_size=2, max_size=2)))
        yy = y()
        if not nomiss and draw(st.integers(0, 3)) == 0:
            yy = None
        steps.append([u, yy])
    first = y() if (first_ok and draw(st.booleans())) else None
    if filt in ("pfy", "cpfyas") and first is None:
        pass
    if max_steps >= 6:
        n = draw(size(st.just(n), 11, 20, 35, 110))
        # (long runs repeat the data)
        steps = [list(v) for v in (steps * n)[:n]]
    split = [(not nomiss) and draw(st.integers(0, 3)) == 0 for _ in range(n)]
    return dict(filter=filt, N=N, res=draw(oneof(0.0, 0.3, 0.5, 0.67, 0.9, 1.0)),
                seed=draw(seeds), pre=draw(st.booleans()), first=first, steps=steps,
                split=split, filter_case=draw(st.booleans()), par=draw(trace_params(extreme)))
