#!/usr/bin/env python3
"""regenerates MANIFEST.json from properties.jsonl and the rule modules"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
NA = {
    "P40": "statistical statement about distributions of random draws; quantifies over run-time random values that no static "
           "argument in reach bounds (the structural parts are claimed in P01, P13 and P17)",
    "P41": "numerical agreement of a lookup-table interpolation with a Bezier curve; needs numeric error bounds over real-valued "
           "inputs, not visible in the shape of the code",
    "P42": "equality of two different discretisation algorithms (interval membership in 1D, flood-fill style labelling in 2D) "
           "for all inputs; needs reasoning about run-time geometry",
    "P43": "topological correctness of rasterised curves and connected-component labelling at every resolution; run-time geometry",
    "P44": "termination of rejection sampling with probability one; depends on run-time random values",
}
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(HERE, "sa", "rules", p.lower() + ".py")):
        m = importlib.import_module("sa.rules." + p.lower())
        checks.append(dict(property=p, quick_cmd="python3 run.py %s --tier quick" % p,
                           thorough_cmd="python3 run.py %s --tier thorough" % p,
                           technique=getattr(m, "TECHNIQUE", "static analysis: abstract interpretation of the syntax tree with "
                                             "global value numbering; value numbers and effect traces compared with the "
                                             "specification"),
                           level=getattr(m, "LEVEL", "other"),
                           level_note=getattr(m, "NOTE", " ".join(m.EXPLANATION.split())),
                           evidence_file="evidence/%s.json" % p))
    else:
        na.append(dict(property=p, reason=NA.get(p, "no check has been built for it")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
