#!/opt/venv/bin/python
"""check.py PROPERTY          run the generated checks of one property
check.py --replay FILE      run one saved minimal case again
check.py --only TEST ...    (development) only some checks of the property

Exit 0: held on everything explored.  Exit 1: violated, with a VIOLATION line.
Anything else: the check itself failed."""
import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from vlib import env  # noqa: E402


def list_tests(prop, scratch):
    code = ("import sys,json;from vlib import env;env.setup_import('pure',None);"
            "from vlib import core;"
            "print('@@'+json.dumps([[t.name,list(t.configs),t.shards,list(t.need),t.rule] for t in core.load(%r)]))" % prop)
    p = subprocess.run([env.PY, "-c", code], cwd=ROOT, env=env.child_env(scratch),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    for line in p.stdout.splitlines():
        if line.startswith("@@"):
            return json.loads(line[2:]), None
    return None, p.stderr


def import_crash(stderr):
    """The library itself cannot be imported: everything is broken."""
    return stderr[-2000:]


def run_jobs(jobs, scratch, ncpu, timeout):
    pending = list(jobs)
    running = []
    done = []
    start = time.time()
    while pending or running:
        while pending and len(running) < ncpu:
            j = pending.pop(0)
            jf = os.path.join(scratch, "job%d.json" % j["id"])
            j["out"] = os.path.join(scratch, "out%d.json" % j["id"])
            json.dump(j, open(jf, "w"))
            log = open(os.path.join(scratch, "log%d.txt" % j["id"]), "w")
            p = subprocess.Popen([env.PY, "-m", "vlib.worker", jf], cwd=ROOT,
                                 env=env.child_env(scratch), stdout=log, stderr=log)
            running.append((j, p, log, time.time()))
        still = []
        for j, p, log, t0 in running:
            rc = p.poll()
            if rc is None:
                if time.time() - start > timeout:
                    p.kill()
                    p.wait()
                    rc = "timeout"
                else:
                    still.append((j, p, log, t0))
                    continue
            log.close()
            res = None
            if os.path.exists(j["out"]):
                try:
                    res = json.load(open(j["out"]))
                except ValueError:
                    pass
            done.append((j, rc, res, open(log.name).read()))
            if os.environ.get("VERIF_FAILFAST") and res and res["failure"]:
                for _j, q, _l, _t in running:
                    if q.poll() is None:
                        q.kill()
                return done
        running = still
        time.sleep(0.03)
    return done


def died(rc, log):
    """What ended a check's process: text, or None if it is no crash or hang of
    the code which ran in it."""
    if isinstance(rc, int) and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL):
        return "the process dies of signal %d (%s)" % (-rc, signal.Signals(-rc).name)
    if rc == 1 and "Timeout (" in log:
        return "no result, the process is stuck in compiled code"
    return None


def confirm_death(j, rc, log, scratch, first_id):
    """If the case during which a worker died makes another one die as well, it
    is a counterexample."""
    what = died(rc, log)
    if what is None or not os.path.exists(j["out"] + ".case"):
        return None
    try:
        case = json.load(open(j["out"] + ".case"))
    except ValueError:
        return None
    job = dict(id=first_id, prop=j["prop"], test=j["test"], config=j["config"], extdir=j["extdir"], replay=case)
    (_j, rc2, res, log2), = run_jobs([job], scratch, 1, 250)
    if res is not None and res["failure"]:
        return dict(case=case, message=res["failure"])
    if res is None and died(rc2, log2):
        return dict(case=case, message=what)
    return None


def known_findings(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--replay")
    ap.add_argument("--only", nargs="*")
    ap.add_argument("--config")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    scratch = tempfile.mkdtemp(prefix="verif-")
    try:
        return run(a, tier, seed, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(a, tier, seed, scratch):
    t0 = time.time()
    if a.replay:
        r = json.load(open(a.replay))
        extdir = env.build_ext(scratch) if r["config"] == "ext" else None
        job = dict(id=0, prop=r["property"], test=r["test"], config=r["config"], extdir=extdir,
                   replay=r["case"])
        (_j, rc, res, log), = run_jobs([job], scratch, 1, 800)
        if res is None and died(rc, log):
            res = dict(failure=died(rc, log))
        if res is None:
            print(log)
            return 2
        if res["failure"]:
            print("%s/%s (%s): %s" % (r["property"], r["test"], r["config"], res["failure"]))
            print("VIOLATION property=%s replay=%s" % (r["property"], os.path.abspath(a.replay)))
            return 1
        print("replay passes")
        return 0

    prop = a.prop
    tests, err = list_tests(prop, scratch)
    if tests is None:
        print(err)
        if "Error" in err and "pyparticleest" in err and "/verif" not in err.split("File")[-1]:
            return report_import(prop, err, tier, seed, t0)
        return 2
    if a.only:
        tests = [t for t in tests if t[0] in a.only]
    need_ext = any("ext" in t[1] for t in tests) and a.config != "pure"
    extdir = env.build_ext(scratch) if need_ext else None
    budget = float(os.environ.get("VERIF_BUDGET_S", "240" if tier == "quick" else "1500"))
    jobs = []
    shards = 1
    for name, configs, nsh, _need, _rule in tests:
        for c in configs:
            if a.config and c != a.config:
                continue
            for s in range(nsh if tier == "quick" else max(nsh, shards)):
                jobs.append(dict(id=len(jobs), prop=prop, test=name, config=c, shard=s, tier=tier,
                                 seed=seed, extdir=extdir, budget_s=budget))
    done = run_jobs(jobs, scratch, int(os.environ.get("VERIF_JOBS", "8")),
                    780 if tier == "quick" else 20000)
    errors = []
    evaluations = nontriv = distinct = skipped = 0
    samples, per, viols, known = [], [], [], []
    labels = {}
    for j, rc, res, log in sorted(done, key=lambda d: d[0]["id"]):
        if res is None:
            f = confirm_death(j, rc, log, scratch, len(jobs) + j["id"])
            if f:
                viols.append((j, f))
                continue
            errors.append("%s/%s: exit %s\n%s" % (j["test"], j["config"], rc, log[-3000:]))
            continue
        evaluations += res["evaluations"]
        nontriv += res["nontrivial"]
        distinct += res["distinct"]
        skipped += res["skipped"]
        per.append(dict(check=res["test"], config=res["config"], shard=res["shard"],
                        evaluations=res["evaluations"], distinct_cases=res["distinct"],
                        nontrivial=res["nontrivial"], skipped_over_time=res["skipped"],
                        labels=res["labels"], slowest_case_s=res["max_case_s"],
                        wall_s=round(res["wall_s"], 2)))
        for s in res["samples"]:
            samples.append("%s/%s: %s" % (res["test"], res["config"], s))
        for k in res["known"]:
            if k not in known:
                known.append(k)
        for lb, c in res["labels"].items():
            labels.setdefault(res["test"], {}).setdefault(lb, 0)
            labels[res["test"]][lb] += c
        if res["failure"]:
            viols.append((j, res["failure"]))
    # generators must reach what the checks are about
    if not viols and not a.only and not os.environ.get("VERIF_SCALE"):
        for name, _c, _n, need, _r in tests:
            for lb in need:
                if not labels.get(name, {}).get(lb):
                    errors.append("check %s never generated a case of class %r" % (name, lb))
    listed = {k["id"]: k for k in known_findings(prop)}
    for k in known:
        if k not in listed:
            errors.append("finding %s is not in known_findings.json" % k)
    rules = "; ".join("%s: %s" % (t[0], t[4]) for t in tests if t[4])
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evaluations, distinct_nontrivial=nontriv,
                            distinct_cases=distinct, skipped_over_time=skipped,
                            rule="Cases are drawn by Hypothesis from VERIF_SEED. Non-trivial: " + rules,
                            samples=samples[:12], per_check=per),
              assumptions=[
                  "generated search: absence of violations is evidence over the generated cases, not a proof",
                  "floating point comparisons use stated relative tolerances; distribution checks use p < 1e-9"],
              wall_s=round(time.time() - t0, 2), violations=len(viols))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    if a.v:
        for p in per:
            print(p)
    for k in known:
        if k in listed:
            print("KNOWN-FINDING: property=%s %s" % (prop, listed[k]["what"]))
    if viols:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        for j, f in viols:
            path = os.path.join(ROOT, "replays", "%s-%s-%s.json" % (prop, j["test"], j["config"]))
            json.dump(dict(property=prop, test=j["test"], config=j["config"], case=f["case"],
                           message=f["message"]), open(path, "w"), indent=1)
            print("%s (%s): %s" % (j["test"], j["config"], f["message"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        for e in errors:
            print("note: " + e)
        return 1
    if errors:
        for e in errors:
            print("HARNESS ERROR " + e)
        return 2
    print("OK property=%s evaluations=%d nontrivial=%d wall=%.1fs" % (
        prop, evaluations, nontriv, time.time() - t0))
    return 0


def report_import(prop, err, tier, seed, t0):
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    path = os.path.join(ROOT, "replays", "%s-import.txt" % prop)
    open(path, "w").write(err)
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


if __name__ == "__main__":
    sys.exit(main())
