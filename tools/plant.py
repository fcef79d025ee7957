#!/usr/bin/env python3
"""tools/plant.py BATCH.py: BATCH defines BUGS = [dict(id, property, file, old, new, needs, breaks, demo)].
Writes seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json}."""
import difflib, json, os, runpy, stat, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]


def main():
    for b in runpy.run_path(sys.argv[1])["BUGS"]:
        eds = b.get("edits") or [(b["file"], b["old"], b["new"])]
        texts = {}
        for f, old, new in eds:
            p = os.path.join("/repo", f)
            t = texts.setdefault(f, [open(p, newline="").read()] * 2)
            if t[1].count(old) != 1:
                sys.exit("%s: %d occurrences in %s of %r" % (b["id"], t[1].count(old), f, old))
            base = subprocess.run(["git", "-C", "/repo", "show", BASE + ":" + f], capture_output=True, text=True).stdout
            if old not in base.replace("\r\n", "\n") and old not in base:
                print("warning: %s: text is not in the base version" % b["id"])
            t[1] = t[1].replace(old, new)
        d = os.path.join(ROOT, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "patch.diff"), "w", newline="") as fo:
            for f, (a, c) in texts.items():
                fo.writelines(difflib.unified_diff(a.splitlines(True), c.splitlines(True), "a/" + f, "b/" + f))
        open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
        sh = os.path.join(d, "demo.sh")
        open(sh, "w").write('#!/bin/bash\n# cwd: /repo\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
                            'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(sh, 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("wrote", b["id"])


main()
