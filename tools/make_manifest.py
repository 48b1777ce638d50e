#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, the registered rules and the reasons below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from qstatic.__main__ import all_rules
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
rules = all_rules()
NA = {
 "C40": "Numerical accuracy of floating-point linear algebra (inversion, rounding, propagated covariance) is a statement about runtime values; no sound static argument in reach bounds it. The data flow into the computation (which values, labels, units, order) is decided under C14, C16 and C17, the pairing and orientation of the matrices under C38.",
 "C41": "Convergence depends on the response function, the accuracy of the gradients and the step sizes of a run; none of these is bounded by the source. The building blocks (step formula, step limit, verdict, recovery) are decided under C10-C14.",
 "C42": "Whether a non-linear fit recovers a physical quantity depends on the optimiser, the start values and the noise of the data; no static argument about the source decides it. That every fit failure is reported as NaN and every evaluator returns a value and a variance per parameter is decided under C22.",
 "C43": "Bit-identical continuation depends on h5py, pandas and floating-point library behaviour and on the experiment; the part the source does decide (every constructor argument is exported from the current state, the writer and the reader agree) is claimed under C07, C08 and C09.",
}
PENDING = "The check for this property is not built yet."
LEVEL = ("Decided by static analysis of the current source for every path of the analysed functions; sound up to the stated "
         "assumptions about library functions (pandas, numpy, h5py, threading) and one generic iteration per loop; "
         "constructs the analysis cannot interpret are listed as undecided in the evidence and do not count as held.")
checks, na = [], []
for p in props:
    if p["id"] in rules:
        r = rules[p["id"]]
        tech = r[2] if len(r) > 2 else "interprocedural path-sensitive dataflow over value terms (static analysis of the syntax tree)"
        checks.append({"property": p["id"], "quick_cmd": "python3 -m qstatic %s" % p["id"],
                       "thorough_cmd": "python3 -m qstatic %s" % p["id"],
                       "technique": tech, "level": "other", "level_note": LEVEL})
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], PENDING)})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "Pure static analysis (Python standard library only); no hooks in /repo; the fix: commits are listed in known_findings.txt and DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
