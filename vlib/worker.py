"""Runs one registered check (one configuration, one shard) or one replay."""
import json
import sys


def trace_lines(out):
    """development only (VERIF_COV=dir): record the lines of the library which ran"""
    import atexit
    import os
    mon, seen = sys.monitoring, set()
    mon.use_tool_id(mon.COVERAGE_ID, "verif")

    def line(code, n):
        if "/pyparticleest/" in code.co_filename:
            seen.add((code.co_filename.split("/pyparticleest/")[1], n))
        return mon.DISABLE
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    atexit.register(lambda: json.dump(sorted(seen), open(os.path.join(out, "%d.json" % os.getpid()), "w")))


def main():
    job = json.load(open(sys.argv[1]))
    import os
    if os.environ.get("VERIF_COV"):
        trace_lines(os.environ["VERIF_COV"])
    import faulthandler
    faulthandler.enable()
    from vlib import env
    env.setup_import(job["config"], job.get("extdir"))
    from vlib import core
    tests = {t.name: t for t in core.load(job["prop"])}
    test = tests[job["test"]]
    if job.get("replay") is not None:
        _rec, failure = core.run_case(test, job["replay"], env.REPO)
        out = dict(failure=failure)
    else:
        out = core.run_test(test, job["config"], job["shard"], job["tier"], job["seed"],
                            env.REPO, job["budget_s"], job["out"] + ".case")
    with open(job["out"], "w") as f:
        json.dump(out, f)


if __name__ == "__main__":
    main()
