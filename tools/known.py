#!/usr/bin/env python3
"""Writes known_findings.json (development tool)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {"hand the original measurement": "C23", "finished trajectories are post-processed": "C30", "pre-allocated space": "C05", "filter options as they are": "C27", "full trajectory gradient": "C23", "mixed models with a certain": "C18", "linear models with a certain": "C22", "analytic A gradient": "C23", "initial state gradient when": "C23", "NonlinearGaussian on to": "C24", "quadratic term in the marg": "C19", "MLNLG models with several": "C17", "numpy.int": "C01", "use range": "C24", "evaluates scalar": "C15", "draw the initial": "C15",
        "integer particles": "C15", "LTV.sample_smooth": "C16", "LTV gradient": "C23",
        "HierarchicalBase.sample": "C20", "HierarchicalRSBase": "C21", "conditional process": "C17",
        "eval_logp_y_val_grad": "C23", "discard C_grad": "C23", "get_rb_initial_grad": "C23",
        "eval_logp_x0_val": "C22", "without Pz0": "C17", "MHBP": "C10", "maximize with": "C24",
        "GradientTest": "C23", "LTV *_val": "C22", "LTV initial": "C22", "missing measurements": "C01",
        "find_best": "C02", "FFPropY": "C01", "SIR measures": "C01", "CSIRAS": "C04", "time_update": "C12",
        "measurement_diff": "C12", "Instrumenter": "C26", "SAEM stores": "C25", "PSAEM with": "C25",
        "PSAEM stops": "C24", "marginalized": "C19", "MHIPS for": "C09", "reduced MHIPS": "C09"}
fixed = []
for line in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    ps = [p for k, p in PROP.items() if k in s]
    assert len(ps) >= 1, s
    fixed.append("fixed: property=%s %s %s" % (ps[0], h, s[4:].strip()))
p = os.path.join(ROOT, "known_findings.json")
old = json.load(open(p)) if os.path.exists(p) else {"findings": []}
json.dump(dict(findings=old["findings"], fixed=fixed), open(p, "w"), indent=1)
print(len(fixed))
