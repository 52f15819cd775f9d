#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--root /repo] [-v]: static decision of one property on the current source."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def known():
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                # known: property=P22 key=<rule key> :: <text>
                head, _, text = line[6:].partition("::")
                d = dict(x.split("=", 1) for x in head.split(" key=", 1)[0].split())
                key = head.split(" key=", 1)[1].strip()
                out.setdefault(d["property"], {})[key] = text.strip()
    return out


def fmt(o, anchor=""):
    """the construct of the repository a violated obligation is about"""
    loc = o["loc"]
    s = "%s:%s" % tuple(loc) if isinstance(loc, tuple) else str(loc)
    if "simcats/" in s and "harness" not in s:
        return s
    e = o.get("entries") or []
    return ("in " + ", ".join(e)) if e else anchor


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--root", default="/repo")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    from sa.rulelib import Run
    R = Run(a.prop, a.tier, a.root)
    try:
        mod = importlib.import_module("sa.rules." + a.prop.lower())
        mod.check(R)
        R.flush()
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s analysis broken" % a.prop)
        return 2
    kn = known().get(a.prop, {})
    viol, knownhits = {}, {}
    n = dict(ok=0, undecided=0, violated=0)
    for o in R.obls:
        n[o["status"]] += 1
        if o["status"] == "violated":
            if o["rule"] in kn:
                knownhits.setdefault(o["rule"], o)
            else:
                viol.setdefault(o["rule"], o)
    wall = time.time() - R.t0
    rules = sorted({o["rule"] for o in R.obls})
    how = {}
    for o in R.obls:
        if o["status"] == "ok":
            k = o["how"].split("(")[0].strip()
            how[k] = how.get(k, 0) + 1
    ev = dict(property=a.prop, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=getattr(mod, "LEVEL", "other"),
              wall_s=round(wall, 3), violations=len(viol),
              coverage=dict(explanation=mod.EXPLANATION.strip(), rule=getattr(mod, "RULE", "").strip(),
                            functions_analysed=sorted(R.analysed), call_sites_analysed=len(R.callsites),
                            scenarios=R.scenarios, obligations=len(R.obls), discharged=n["ok"],
                            undecided=n["undecided"], rules=len(rules), decided_by=how,
                            undecided_rules=sorted({o["rule"] + " (" + o["how"] + ")" for o in R.obls
                                                    if o["status"] == "undecided"})[:60],
                            imprecision=R.unsup, samples=[o["rule"] + " -> " + o["how"] for o in R.obls[:12]]),
              assumptions=getattr(mod, "ASSUMPTIONS", []))
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    if not a.no_evidence:
        with open(os.path.join(evdir, a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s tier=%s scenarios=%d functions=%d obligations=%d discharged=%d undecided=%d violated=%d (%.1fs)" % (
        a.prop, a.tier, R.scenarios, len(R.analysed), len(R.obls), n["ok"], n["undecided"], n["violated"], wall))
    if a.v:
        for o in R.obls:
            if o["status"] != "ok":
                print("  [%s] %s: %s %s  @%s" % (o["status"], o["rule"], o["how"], o["detail"], o["loc"]))
        for s, e in R.errors:
            print("  error in %s: %s" % (s, e))
        print("  imprecision:", R.unsup)
    for k, o in knownhits.items():
        print("KNOWN-FINDING: property=%s %s (%s)" % (a.prop, kn[k], k))
    if viol:
        rp = os.path.join(evdir, a.prop + ".violations.txt")
        with open(rp, "w") as f:
            for k, o in viol.items():
                f.write("rule: %s\nat: %s\nobligation stated at: %s\nby: %s\n%s\n\n" % (
                    k, fmt(o, getattr(mod, "ANCHOR", "")), o["loc"], o["how"], o["detail"]))
        for k, o in list(viol.items())[:12]:
            print("  violated: %s at %s [%s] %s" % (k, fmt(o, getattr(mod, "ANCHOR", "")), o["how"], o["detail"][:400].replace("\n", " ")))
        print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        return 1
    if n["ok"] == 0:
        print("ERROR property=%s nothing was decided (%d undecided)" % (a.prop, n["undecided"]))
        for s, e in R.errors[:3]:
            print("  error in %s: %s" % (s, e))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
