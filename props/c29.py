"""C29: the density of the sum of two uniform variables."""
import numpy
from hypothesis import strategies as st
from vlib.core import check, expect
from vlib import strat


@st.composite
def case_st(draw):
    lim = lambda: [draw(st.integers(-40, 40)) / 8.0, draw(st.integers(1, 40)) / 8.0]
    a, b = lim(), lim()
    if draw(st.integers(0, 3)) == 0:
        b[1] = a[1]                     # equal widths: a triangle
    return dict(a=a, b=b, swap=draw(st.tuples(st.booleans(), st.booleans())),
                form=draw(strat.oneof("list", "tuple", "array", "int")),
                p=[draw(st.integers(-400, 400)) / 16.0 for _ in range(4)],
                inside=[draw(st.integers(0, 64)) / 64.0 for _ in range(6)])


@check("C29", case_st, quick=2000, thorough=50000, rule="points strictly inside the support and unequal widths",
       need=("triangle", "wide-first", "wide-second", "swapped", "outside"))
def density_of_the_sum(case, rec):
    """f(p) = |[p - b2, p - a2] n [a1, b1]| / (w1 w2), whatever the order of the
    end points."""
    from pyparticleest.utils.pdf import unifsum
    (a1, w1), (a2, w2) = case["a"], case["b"]
    if case["form"] == "int":
        a1, a2, w1, w2 = [float(numpy.ceil(v)) for v in (a1, a2, w1, w2)]
    lims = [[a1, a1 + w1], [a2, a2 + w2]]
    lims = [l[::-1] if s else l for l, s in zip(lims, case["swap"])]
    mk = {"list": list, "tuple": tuple, "array": numpy.array, "int": lambda l: [int(v) for v in l]}[case["form"]]
    args = [mk(l) for l in lims]
    f = unifsum(*args)
    lo, hi = a1 + a2, a1 + a2 + w1 + w2

    def exact(p):
        return max(0.0, min(a1 + w1, p - a2) - max(a1, p - a2 - w2)) / (w1 * w2)
    pts = list(case["p"]) + [lo + s * (hi - lo) for s in case["inside"]] + [lo, hi, lo + min(w1, w2), hi - min(w1, w2)]
    for p in pts:
        v = f(p)
        expect(numpy.size(v) == 1 and abs(float(v) - exact(p)) <= 1e-9 / min(w1, w2), "density %r at %r for limits %s, exact %r", v, p, lims, exact(p))
    grid = numpy.linspace(lo - 1, hi + 1, 2001)
    area = numpy.sum([f(p) for p in grid]) * (grid[1] - grid[0])
    expect(abs(area - 1.0) < 0.02, "the density integrates to %r", area)
    expect(all(list(x) == list(y) for x, y in zip(args, lims)), "the limits were changed")
    rec.label("triangle" if w1 == w2 else "wide-first" if w1 > w2 else "wide-second", "swapped" if any(case["swap"]) else "",
              "outside" if any(p < lo or p > hi for p in case["p"]) else "")
    rec.nontrivial = w1 != w2 and any(0 < s < 1 for s in case["inside"])
