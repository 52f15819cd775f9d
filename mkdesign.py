#!/usr/bin/env python3
"""regenerates DESIGN.md from design_head.md, the rule modules and design_tail.md"""
import importlib
import json
import os
import sys
import textwrap

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
out = [open(os.path.join(HERE, "design_head.md")).read()]
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    if not os.path.exists(os.path.join(HERE, "sa", "rules", p["id"].lower() + ".py")):
        continue
    m = importlib.import_module("sa.rules." + p["id"].lower())
    note = getattr(m, "NOTE", " ".join(m.EXPLANATION.split()))
    out.append("### %s %s\n%s\n" % (p["id"], p["title"], "\n".join(textwrap.wrap(note, 126))))
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + open(os.path.join(HERE, "design_tail.md")).read())
