from .. import terms as tm
from ..rulelib import cases
from ..values import *

EXPLANATION = """
Constant evaluation of the shipped configuration dictionary by the abstract interpreter (no code is run): every entry is bound
against the constructor of the simulation and of its components, its constants are put through the components' own guards and the
geometric assertions, and the resulting abstract objects have to satisfy the order and range constraints; samplers are sampled
abstractly and their results bounded by the interval domain.
"""
ANCHOR = "simcats/_default_configs.py"


def ranges(R):
    """every sampler of the configurations has an ordered, non-empty range"""
    def post(I, v, alive):
        n = 0
        for i, c in list(I.heap.items()):
            if getattr(c, "kind", None) == "obj" and c.cls.name.endswith("SamplingRange"):
                for k, x in c.fields.items():
                    if k.endswith("__range") or k.endswith("total_range"):
                        x = I.res(x)
                        try:
                            it = x.items if isinstance(x, Tup) else I.cell(x).items
                            lo, hi = it[0], it[1]
                        except Exception:
                            continue
                        n += 1
                        d = I.decide(tm.lt(lo, hi))
                        R.add(I, "%s is ordered" % c.cls.name, "ok" if d is True else "violated" if d is False else "undecided",
                              "constants", "%s .. %s" % (tm.show(lo), tm.show(hi)), I.meta.get(i, {}).get("loc"))
        if not n:
            R.add(I, "samplers", "undecided", "no range found", "")
    return post


def check(R):
    I = R.session("comp", "p26")
    cases(R, I, "p26", "entries", 1)
    names = I.mod_attr(I.hmods["p26"], "NAMES")
    n = len(I.cell(I.res(names)).items)
    for f in ("accepted", "sensor", "wave", "noise"):
        cases(R, I, "p26", f, n, post=ranges(R) if f == "accepted" else None)
