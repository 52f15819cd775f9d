#!/usr/bin/env python3
"""plant.py SPEC.py...: turns bug specifications into /verif/seeded/<id>/ after confirming them in a scratch copy.

A specification file calls bug(id, property, needs, breaks, edits, demo) where edits is a list of (file, old, new)."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


DEMO = """#!/bin/bash
# exit 0 on the unchanged tree, nonzero when the planted change is present
export MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def one(b):
    d = tempfile.mkdtemp(prefix="plant_")
    try:
        repo = os.path.join(d, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        demo = os.path.join(d, "demo")
        os.makedirs(demo)
        open(os.path.join(demo, "demo.py"), "w").write(b["demo"].lstrip("\n"))
        open(os.path.join(demo, "demo.sh"), "w").write(DEMO)
        r = run(["bash", os.path.join(demo, "demo.sh")], repo)
        if r.returncode:
            return b, "demo fails on the unchanged tree:\n" + r.stderr[-1500:]
        for f, old, new in b["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return b, "edit of %s matches %d times: %s" % (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        patch = run(["git", "diff"], repo).stdout
        # only original lines may be changed
        base = run(["git", "rev-list", "--max-parents=0", "HEAD"], repo).stdout.split()[0]
        r = run(["bash", os.path.join(demo, "demo.sh")], repo, timeout=300)
        if r.returncode == 0:
            return b, "demo passes with the change"
        msg = (r.stdout + r.stderr).strip().splitlines()[-1:]
        if os.environ.get("NOTEST"):
            bad = []
        else:
            t = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + repo)
            open(os.path.join(d, "test.sh"), "w").write(t)
            run(["bash", os.path.join(d, "test.sh"), os.path.join(d, "out.json")], repo, timeout=1500)
            o = json.load(open(os.path.join(d, "out.json")))
            stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            passed = set(o.get("passed", []))
            bad = [x for x in stable if x not in passed]
        if bad:
            return b, "tests fail: " + ", ".join(bad[:5])
        out = "/verif/seeded/" + b["id"]
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(patch)
        open(out + "/demo.sh", "w").write(DEMO)
        open(out + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(out + "/meta.json", "w"), indent=1)
        return b, "ok (%s)" % (msg[0][:150] if msg else "")
    finally:
        shutil.rmtree(d)


def main():
    for f in sys.argv[1:]:
        exec(compile(open(f).read(), f, "exec"), dict(bug=bug))
    only = os.environ.get("ONLY")
    todo = [b for b in BUGS if not only or b["id"] in only.split(",")]
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
        for b, res in ex.map(one, todo):
            print(b["id"], "->", res, flush=True)


main()
