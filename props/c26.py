"""C26: the instrumenting wrapper is transparent and counts exactly."""
import contextlib
import io
import re
import numpy
from hypothesis import strategies as st
from vlib.core import check, expect
from vlib import runs, models

COUNTERS = ("cnt_sample", "cnt_update", "cnt_measure", "cnt_pdfxn", "cnt_pdfxnmax", "cnt_propsmooth", "cnt_pdfsmooth",
            "cnt_eval1st", "cnt_eval_logp_x0")
WHAT = {"sample_process_noise_full": "cnt_sample", "update_full": "cnt_update", "measure_full": "cnt_measure",
        "logp_xnext": "cnt_pdfxn", "logp_xnext_full": "cnt_pdfxn", "logp_xnext_singlestep": "cnt_pdfxn",
        "logp_xnext_max_full": "cnt_pdfxnmax", "propose_smooth": "cnt_propsmooth", "logp_proposal": "cnt_pdfsmooth",
        "eval_1st_stage_weights": "cnt_eval1st", "eval_logp_x0": "cnt_eval_logp_x0"}


class Recorder(object):
    """Passes everything on to the model, adding up how many particles the
    results are for (taken from the results, not from the arguments)."""

    def __init__(self, model):
        object.__setattr__(self, "_m", model)
        object.__setattr__(self, "seen", dict.fromkeys(COUNTERS, 0))
        object.__setattr__(self, "names", set())

    def __getattr__(self, name):
        v = getattr(self._m, name)
        if not callable(v):
            return v

        def call(*a, **k):
            n = len(a[1]) if name == "sample_process_noise_full" else len(a[0]) if name in ("logp_xnext_max_full", "update_full") else None
            r = v(*a, **k)
            self.names.add(name)
            if name in WHAT:
                if n is None:
                    q = r[0] if name == "propose_smooth" and isinstance(r, tuple) else r
                    n = len(q)
                self.seen[WHAT[name]] += n
            return r
        return call


def printed(fun):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        fun()
    return out.getvalue()


def supported(d):
    return d["filter"] in ("pf", "apf", "cpf", "cpfas")


@check("C26", lambda: runs.run_st(kinds=("trace", "ltv", "nlg", "nlg", "mix", "marg", "hier"), filters=("pf", "apf", "cpf", "cpfas")),
       quick=600, thorough=12000, shards=2, rule="more than one step and particle",
       need=tuple(WHAT)[:3] + ("logp_xnext_full", "logp_xnext_max_full", "propose_smooth", "logp_proposal",
                               "eval_1st_stage_weights", "logp_xnext_singlestep"))
def transparent_and_exact(d, rec):
    from pyparticleest.utils.intrument import Instrumenter
    r = runs.R(d)
    ct = r.cond()
    plain = runs.outcome(r.simulate(r.model(), ctraj=ct))
    # counts of every operation: what the model itself returned
    rc = Recorder(r.model())
    ins = Instrumenter(rc)
    s = r.simulate(ins, ctraj=ct)
    for (k, a), (_k, b) in zip(plain, runs.outcome(s)):
        expect(a.shape == b.shape and numpy.allclose(a, b, rtol=1e-8, atol=1e-9, equal_nan=True),
               "%s with the instrumented model: %s, with the model itself: %s", k,
               numpy.array2string(b, threshold=20), numpy.array2string(a, threshold=20))
    oc = ins.oc
    got = {k: getattr(oc, k) for k in COUNTERS}
    got["cnt_pdfxn"] += oc.cnt_pdfxn_full
    for k in COUNTERS:
        expect(got[k] == rc.seen[k], "%s is %r, the model was evaluated for %r particles", k, got[k], rc.seen[k])
    txt = printed(ins.print_statistics)
    for k in COUNTERS[:7]:
        m = re.search(k + r": (-?\d+)\b", txt)
        expect(m is not None and int(m.group(1)) == got[k], "print_statistics says %r for %s = %d", txt, k, got[k])
    m = re.search(r"total ops: (-?\d+)\b", printed(ins.print_total_ops))
    expect(m is not None and int(m.group(1)) == sum(got[k] for k in COUNTERS[:7]), "print_total_ops says %s for %s",
           m and m.group(1), got)
    rec.label(*rc.names)
    rec.label(d["kind"], d["smoother"])
    rec.nontrivial = r.n > 1


@check("C26", lambda: st.lists(st.lists(st.integers(0, 50), min_size=10, max_size=10), min_size=2, max_size=4),
       quick=200, thorough=2000, rule="several counters differ from zero", need=())
def counts_add_up(case, rec):
    from pyparticleest.utils.intrument import OpCount
    names = COUNTERS + ("cnt_pdfxn_full",)
    ocs = [OpCount(**dict(zip(names, c))) for c in case]
    tot = ocs[0]
    for o in ocs[1:]:
        tot = tot + o
    for i, k in enumerate(names):
        expect(getattr(tot, k) == sum(c[i] for c in case), "the sum of %s gives %s=%r", [c[i] for c in case], k, getattr(tot, k))
        expect(all(getattr(o, k) == c[i] for o, c in zip(ocs, case)), "adding changed an operand")
    expect(all(getattr(OpCount(), k) == 0 for k in names), "counters do not start at zero")
    rec.nontrivial = sum(1 for c in case if any(c)) > 1


SIZES = ("single", "single-next", "equal", "equal")


@st.composite
def call_case(draw):
    calls = []
    for _ in range(draw(st.integers(1, 12))):
        k = draw(st.integers(1, 6))
        calls.append((draw(st.sampled_from(sorted(WHAT))), k, draw(st.sampled_from(SIZES)), draw(st.integers(0, 3))))
    return dict(calls=calls)


@check("C26", call_case, quick=300, thorough=4000, rule="several calls of different sizes", need=tuple(WHAT) + SIZES[:3])
def every_call_is_passed_on_and_counted(case, rec):
    """Each operation reaches the model with the very arguments given, its
    result is handed back, and counts as many evaluations as it has values."""
    from pyparticleest.utils.intrument import Instrumenter
    log = []

    class Model(object):
        def __getattr__(self, name):
            if name.startswith("_"):
                raise AttributeError(name)

            def call(*a, **k):
                log.append((name, a + tuple(k.values())))
                return self.result
            return call
    m = Model()
    ins = Instrumenter(m)
    want = dict.fromkeys(COUNTERS, 0)
    arr = lambda k: numpy.arange(3.0 * k).reshape((k, 3))
    for name, k, size, t in case["calls"]:
        n, q = {"single": (1, k), "single-next": (k, 1), "equal": (k, k)}[size]
        two = name in ("logp_xnext", "logp_xnext_full", "logp_xnext_singlestep")
        res = max(n, q) if two else k
        full = [arr(k), object(), numpy.arange(k), object(), numpy.arange(k), object(), object(), object(), t]
        args = {"sample_process_noise_full": [object(), numpy.arange(k), object(), object()],
                "update_full": [arr(k), object(), object(), object(), object(), numpy.arange(k), object()],
                "measure_full": [arr(k), object(), object(), object(), object(), numpy.arange(k)],
                "logp_xnext": [arr(n), arr(q), object(), t],
                "logp_xnext_full": [arr(n), object(), numpy.arange(n), object(), numpy.arange(q), object(), object(), object(), t],
                "logp_xnext_singlestep": [arr(n), object(), numpy.arange(n), arr(q), numpy.arange(q), object(), object(), object(), t],
                "logp_xnext_max_full": [arr(k), object(), numpy.arange(k), object(), object(), object(), t],
                "propose_smooth": [object() if t else None, numpy.arange(k) if t else None] + full[3:],
                "logp_proposal": full,
                "eval_1st_stage_weights": [arr(k), object(), object(), t],
                "eval_logp_x0": [arr(k), t]}[name]
        m.result = numpy.zeros(res)
        got = getattr(ins, name)(*args)
        expect(got is m.result, "%s returns something else than the model", name)
        expect(len(log) == 1 and log[0][0] == name and len(log[0][1]) == len(args) and
               all(a is b for a, b in zip(log[0][1], args)), "%s reaches the model as %s", name, [c[0] for c in log])
        del log[:]
        want[WHAT[name]] += res
        have = {c: getattr(ins.oc, c) for c in COUNTERS}
        have["cnt_pdfxn"] += ins.oc.cnt_pdfxn_full
        expect(have == want, "after %s with %d values (%s) the counters are %s, expected %s", name, res, size, have, want)
        rec.label(name, size)
    rec.nontrivial = len(set((c[0], c[1]) for c in case["calls"])) > 1
