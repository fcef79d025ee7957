"""Property-based testing core: registering generated checks, running them with
Hypothesis from a fixed seed, counting what was generated, shrinking failures
and writing replay files."""
import faulthandler
import hashlib
import importlib
import json
import os
import signal
import time
import traceback
import zlib


class Violation(AssertionError):
    """The property does not hold for this case."""


class Known(Exception):
    """A failure listed in known_findings.json was met (not a violation)."""


REGISTRY = {}


class Test(object):
    def __init__(self, prop, name, fn, strategy, quick, thorough, configs, shards, rule, need):
        self.prop, self.name, self.fn, self.strategy = prop, name, fn, strategy
        self.quick, self.thorough, self.configs, self.shards = quick, thorough, configs, shards
        self.rule = rule
        self.need = need


def check(prop, strategy, quick=100, thorough=None, configs=("pure",), shards=1, rule="", need=()):
    """Register fn(case, rec) as a generated check of a property.

    - strategy: Hypothesis strategy (or callable returning one) producing plain
      JSON data
    - rule: what makes a case of this check non-trivial
    - need: labels which must occur at least once in a run (else harness error)
    """
    def deco(fn):
        t = Test(prop, fn.__name__, fn, strategy, quick,
                 thorough if thorough is not None else quick * 20,
                 tuple(configs), shards, rule, tuple(need))
        REGISTRY.setdefault(prop, []).append(t)
        return fn
    return deco


class Rec(object):
    """What one case was like; filled in by the check function."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False
        self.count = 1
        self.known = []
        self.hang = False

    def label(self, *names):
        for n in names:
            if n:
                self.labels.add(str(n))


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def load(prop):
    importlib.import_module("props." + prop.lower())
    return REGISTRY[prop]


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def _in_repo(tb, repo):
    repo = os.path.realpath(repo)
    for fs in traceback.extract_tb(tb):
        fn = fs.filename or ""
        if os.path.realpath(fn).startswith(repo + os.sep) or fn.endswith(".pyx"):
            return True
    return False


class Hang(BaseException):
    """One case takes longer than any case may (raised by the timer)."""


HANG_S = float(os.environ.get("VERIF_HANG_S", "150"))


def _hang(signum, frame):
    raise Hang()


def run_case(test, case, repo):
    """Run one case.  Returns (rec, failure) where failure is None or text.
    A case which does not come to an end is a failure as well (all cases of the
    quick tier take at most a few seconds)."""
    import numpy
    rec = Rec()
    numpy.random.seed(12345)
    limit = HANG_S if os.environ.get("VERIF_TIER", "quick") != "thorough" else 20 * HANG_S
    signal.signal(signal.SIGALRM, _hang)
    signal.setitimer(signal.ITIMER_REAL, limit, 10)
    # compiled code may never get to the handler
    faulthandler.dump_traceback_later(limit + 15, exit=True)
    try:
        test.fn(case, rec)
    except Hang as e:
        where = "unknown place"
        for fs in traceback.extract_tb(e.__traceback__):
            if os.path.realpath(fs.filename or "").startswith(os.path.realpath(repo) + os.sep):
                where = "%s:%s" % (os.path.basename(fs.filename), fs.lineno)
        rec.hang = True
        return rec, "no result after %d seconds (last in %s)" % (limit, where)
    except Violation as e:
        return rec, "%s" % e
    except MemoryError:
        raise
    except Exception as e:                      # noqa: BLE001
        if _in_repo(e.__traceback__, repo):
            last = traceback.extract_tb(e.__traceback__)[-1]
            return rec, "the library raised %s: %s (%s:%s)" % (
                type(e).__name__, e, os.path.basename(last.filename), last.lineno)
        raise
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        faulthandler.cancel_dump_traceback_later()
    return rec, None


def run_test(test, config, shard, tier, seed, repo, budget_s, current=None):
    """Generated-input search for one registered check."""
    import hypothesis
    from hypothesis import strategies as st  # noqa: F401
    from hypothesis.internal.conjecture import engine
    try:
        engine.MAX_SHRINKING_SECONDS = 25
        # fresh random cases throughout: variations of earlier cases mostly
        # keep their random seeds and hence the same matrices
        engine.ConjectureRunner.generate_mutations_from = lambda self, data: None
    except Exception:
        pass
    n = test.quick if tier == "quick" else test.thorough
    scale = os.environ.get("VERIF_SCALE")           # development only: a coarser search
    if scale:
        n = max(15, int(n * float(scale)))
    strategy = test.strategy() if callable(test.strategy) else test.strategy
    res = dict(test=test.name, config=config, shard=shard, evaluations=0, nontrivial=0,
               skipped=0, max_case_s=0.0, labels={}, samples=[], failure=None, known=[], requested=n,
               rule=test.rule)
    seen = set()
    t0 = time.time()
    state = {"fail": None, "hang": None}

    def body(case):
        if state["fail"] is None and time.time() - t0 > budget_s:
            res["skipped"] += 1
            return
        if state["hang"] is not None:           # do not shrink by waiting
            if canon(case) == state["hang"]:
                raise Violation(state["fail"][1])
            return
        t1 = time.time()
        if current:                             # in case the process dies
            with open(current, "w") as f:
                f.write(canon(case))
        rec, failure = run_case(test, case, repo)
        res["max_case_s"] = max(res["max_case_s"], round(time.time() - t1, 2))
        if rec.hang:
            state["hang"] = canon(case)
        if state["fail"] is None:
            key = hashlib.sha1(canon(case).encode()).hexdigest()
            res["evaluations"] += rec.count
            if key not in seen:
                seen.add(key)
                for lb in rec.labels:
                    res["labels"][lb] = res["labels"].get(lb, 0) + 1
                if rec.nontrivial:
                    res["nontrivial"] += rec.count
                    if len(res["samples"]) < 2 or (len(res["samples"]) < 4 and len(seen) % 37 == 0):
                        txt = canon(case)
                        res["samples"].append(txt if len(txt) < 1500 else txt[:1500] + "...")
            for k in rec.known:
                if k not in res["known"]:
                    res["known"].append(k)
        if failure is not None:
            state["fail"] = (case, failure)
            raise Violation(failure)

    s = zlib.crc32(("%s/%s/%s/%s" % (test.prop, test.name, config, shard)).encode())
    s = (s * 1000003 + seed * 7919 + (1 if tier == "thorough" else 0)) & 0x7fffffff
    HC = hypothesis.HealthCheck
    runner = hypothesis.given(strategy)(body)
    runner = hypothesis.seed(s)(runner)
    runner = hypothesis.settings(
        max_examples=n, database=None, deadline=None, derandomize=False,
        print_blob=False, report_multiple_bugs=False,
        phases=(hypothesis.Phase.generate,) if scale else (hypothesis.Phase.generate, hypothesis.Phase.shrink),
        suppress_health_check=[HC.too_slow, HC.data_too_large, HC.large_base_example])(runner)
    try:
        runner()
    except Violation:
        pass
    except Exception:
        # Flaky etc.: a recorded violation is still a violation of the property
        if state["fail"] is None:
            raise
    if state["fail"] is not None:
        # re-run the minimal case so that the message is the one of that case
        case, failure = state["fail"]
        res["failure"] = dict(case=case, message=failure)
    res["distinct"] = len(seen)
    res["wall_s"] = time.time() - t0
    return res
