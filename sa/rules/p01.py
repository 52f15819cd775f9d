import ast
import os
from .. import terms as tm
from ..rulelib import cases
from ..values import *

EXPLANATION = """
Effect analysis: every distortion, noise helper and sampler is analysed with generators of known abstract identity (given at
construction, replaced later, or the default one), active and inactive, fresh and frozen, in 1D and 2D.  Between the start and the
end of an application the recorded effects may only contain draws on the generators handed to the component; a draw on any other
abstract generator object (copies included), the creation of a generator, or a call of a non-deterministic external function is a
violation.  A second rule resolves the imports of every module except the configuration samplers and enumerates all calls that
denote global random state.
"""
ANCHOR = "simcats/distortions"
CLOCK = ("time.", "datetime.", "id/hash")


def judge(R, default=False):
    def post(I, v, alive):
        evs = R.flat_events(I)
        begun, gens, bad, n, clock, used, born = False, set(), None, 0, set(), None, set()
        results = []
        for e in evs:
            nm = e.data.get("name")
            if e.kind == "rng-create" and not begun:
                born.add(e.data["ref"])
            if e.kind == "event" and nm == "begin":
                begun = True
                lst = I.res(e.data["rawargs"][0])
                gens = {I.res(x).id for x in I.cell(lst).items if isinstance(I.res(x), Ref)}
                continue
            if not begun:
                continue
            if e.kind == "event" and nm == "draw":
                n += 1
                r = I.res(e.data["rawargs"][0])
                if isinstance(r, Ref) and r.id not in gens:
                    bad = bad or ("draw on a generator that was not given to the component", e)
            elif e.kind == "event" and nm == "end":
                results.append(e.data["args"][0])
            elif e.kind == "draw":
                n += 1
                g = e.data["gen"]
                if g is None:
                    bad = bad or ("draw on global random state (%s)" % e.data["method"], e)
                elif g in gens:
                    pass
                elif default and (g in born or g < I.n_loaded):
                    pass
                else:
                    bad = bad or ("draw (%s) on a generator that was not given to the component" % e.data["method"], e)
            elif e.kind == "rng-create":
                bad = bad or ("generator created during the application", e)
            elif e.kind == "nondet":
                if nm.startswith(CLOCK):
                    clock.add(nm)
                else:
                    bad = bad or ("call of %s" % nm, e)
        for x in results:
            if clock and bad is None:
                t = x
                for s in tm.walk(t):
                    if s.op == "draw" and isinstance(s.args[0], str) and s.args[0].startswith("global:"):
                        bad = ("result depends on %s" % s.args[0][7:], None)
        if bad:
            R.add(I, "draws", "violated", "effect", bad[0], bad[1].loc if bad[1] else None)
        elif not begun:
            R.add(I, "draws", "undecided", "not reached", "")
        else:
            R.add(I, "draws", "ok", "%s draws" % ("some" if n else "no"), "")
    return post


# ---------------------------------------------------------------- whole-package enumeration
ALLOWED = ("numpy.random.default_rng", "numpy.random.Generator", "numpy.random.PCG64", "numpy.random.SeedSequence",
           "numpy.random.BitGenerator", "numpy.random.RandomState", "random.Random", "uuid.UUID")
GLOBAL = ("numpy.random.", "random.", "secrets.", "os.urandom", "uuid.")


def enumerate_calls(R, I):
    I.scene, I.entries = "package", []
    for dp, dn, fn in sorted(os.walk(os.path.join(R.root, "simcats"))):
        if "config_samplers" in dp or "__pycache__" in dp:
            continue
        for f in sorted(fn):
            if not f.endswith(".py"):
                continue
            p = os.path.join(dp, f)
            rel = os.path.relpath(p, R.root)
            try:
                tree = ast.parse(open(p).read())
            except SyntaxError:
                continue
            names = {}
            for n in ast.walk(tree):
                if isinstance(n, ast.Import):
                    for a in n.names:
                        names[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
                elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
                    for a in n.names:
                        names[a.asname or a.name] = n.module + "." + a.name

            def dotted(x):
                if isinstance(x, ast.Name):
                    return names.get(x.id)
                if isinstance(x, ast.Attribute):
                    b = dotted(x.value)
                    return b and b + "." + x.attr
                return None
            bad, ncalls = None, 0
            for n in ast.walk(tree):
                if isinstance(n, ast.Call):
                    ncalls += 1
                    d = dotted(n.func)
                    if d and d.startswith(GLOBAL) and d not in ALLOWED:
                        bad = bad or (d, n.lineno)
            if bad:
                R.add(I, rel, "violated", "call enumeration", "call of %s" % bad[0], (rel, bad[1]))
            else:
                R.add(I, rel, "ok", "call enumeration", "%d calls" % ncalls)


def check(R):
    I = R.session("comp", "gen", "p24", "noise", "p01")
    I.n_loaded = max(I.heap, default=0) + 1
    enumerate_calls(R, I)
    R.collect(I)
    post = judge(R)
    cases(R, I, "p01", "jumps", 8, post=post)
    cases(R, I, "p01", "white", 6, post=post)
    cases(R, I, "p01", "telegraph", 6, post=post)
    cases(R, I, "p01", "sampled", 4, post=post)
    cases(R, I, "p01", "helpers", 4, post=post)
    cases(R, I, "p01", "samplers", 4, post=post)
    post = judge(R, True)
    cases(R, I, "p01", "defaults", 10, post=post, raises=False)
    cases(R, I, "p01", "helper_defaults", 4, post=post, raises=False)
