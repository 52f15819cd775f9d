"""Sign, monotonicity and limit domains over value numbers (structural recursion on normal forms)."""
from __future__ import annotations
from . import terms as tm
from .terms import T, ONE, ZERO

INCREASING = {"tanh", "arctan", "sinh", "arcsinh", "expit", "erf", "log1p", "expm1", "arctanh", "arcsin"}
LIMITS = {"tanh": (tm.neg(ONE), ONE), "erf": (tm.neg(ONE), ONE), "expit": (ZERO, ONE),
          "arctan": (tm.mul(tm.const(-1), tm.div(tm.mk("pi"), tm.const(2))), tm.div(tm.mk("pi"), tm.const(2)))}


def dep(t, x):
    return any(y is x for y in tm.walk(t))


def proved(I, c):
    from .npfuncs import linear
    return I.decide(c) is True or linear(I, c)


def sgn(I, t):
    """1, -1, 0 or None"""
    n = tm.num(t)
    if n is not None:
        return (n > 0) - (n < 0)
    if t.op in ("e", "pi"):
        return 1
    if t.op == "numatom":
        return 1 if t.args[0] > 0 else -1
    if proved(I, tm.lt(ZERO, t)):
        return 1
    if proved(I, tm.lt(t, ZERO)):
        return -1
    if t.op != "poly":
        return None
    s = None
    for m, c in t.args[0]:
        r = 1 if c > 0 else -1
        for a, e in m:
            f = factor_sign(I, a, e)
            if f is None:
                return None
            r *= f
        if s is not None and s != r:
            return None
        s = r
    return s


def factor_sign(I, a, e):
    if a.op == "e":
        return 1
    b = sgn(I, a) if tm.num(a) is None and a.op != "poly" else (sgn(I, a) if a.op != "poly" else sgn(I, a))
    if b == 1:
        return 1
    n = tm.num(e)
    if b == -1 and n is not None and n.denominator == 1:
        return 1 if n % 2 == 0 else -1
    return None


def groups(t, x):
    """[(coefficient free of x, ((factor, exponent), ...) depending on x)]"""
    out = {}
    for m, c in t.args[0]:
        k = tuple((a, e) for a, e in m if dep(a, x) or dep(e, x))
        free = tuple((a, e) for a, e in m if not (dep(a, x) or dep(e, x)))
        r = tm.const(c)
        for a, e in free:
            r = tm.mul(r, tm.power(a, e))
        out[k] = tm.add(out[k], r) if k in out else r
    return [(c, k) for k, c in out.items()]


def aspoly(t):
    return t.op == "poly"


def mono(I, t, x):
    """0 independent, 1 increasing, -1 decreasing, None unknown"""
    if not dep(t, x):
        return 0
    if t is x:
        return 1
    if t.op == "poly":
        r = 0
        for c, k in groups(t, x):
            if not k:
                continue
            s = sgn(I, c)
            if s == 0:
                continue
            ms = [mpow(I, a, e, x) for a, e in k]
            if s is None or None in ms:
                return None
            if len(k) > 1 and (len(set(ms)) > 1 or any(factor_sign(I, a, e) != 1 for a, e in k)):
                return None
            v = s * ms[0]
            if r not in (0, v):
                return None
            r = v
        return r
    if t.op == "log":
        return mono(I, t.args[0], x)
    if t.op == "fn" and len(t.args) == 2 and t.args[0] in INCREASING:
        return mono(I, t.args[1], x)
    if t.op == "abs":
        s = sgn(I, t.args[0])
        m = mono(I, t.args[0], x)
        return s * m if s and m is not None else None
    if t.op == "ite":
        d = I.decide(t.args[0])
        if d is not None:
            return mono(I, t.args[1 if d else 2], x)
        return None
    return None


def mpow(I, a, e, x):
    if a.op == "e":
        return mono(I, e, x)
    if dep(e, x):
        return None
    m = mono(I, a, x)
    if m is None:
        return None
    n = tm.num(e)
    if n is not None and n.denominator == 1 and n > 0 and n % 2 == 1:
        return m
    b, s = sgn(I, a), sgn(I, e)
    if b == 1 and s is not None:
        return m * s
    return None


def limit(I, t, x, d):
    """limit for x -> d * infinity: a term, ('inf', sign) or None"""
    if not dep(t, x):
        return t
    if t is x:
        return ("inf", d)
    if t.op == "poly":
        acc, inf = ZERO, None
        for c, k in groups(t, x):
            if not k:
                acc = tm.add(acc, c)
                continue
            s = sgn(I, c)
            if s == 0:
                continue
            r = c
            for a, e in k:
                f = lpow(I, a, e, x, d)
                if f is None:
                    return None
                if isinstance(f, tuple):
                    if isinstance(r, tuple):
                        r = ("inf", r[1] * f[1])
                    else:
                        q = sgn(I, r)
                        if not q:
                            return None
                        r = ("inf", q * f[1])
                elif isinstance(r, tuple):
                    q = sgn(I, f)
                    if not q:
                        return None
                    r = ("inf", r[1] * q)
                else:
                    r = tm.mul(r, f)
            if isinstance(r, tuple):
                if inf is not None and inf != r:
                    return None
                inf = r
            else:
                acc = tm.add(acc, r)
        return inf or acc
    if t.op == "log":
        r = limit(I, t.args[0], x, d)
        if isinstance(r, tuple):
            return ("inf", 1) if r[1] > 0 else None
        if r is None:
            return None
        return ("inf", -1) if tm.num(r) == 0 else tm.log(r)
    if t.op == "fn" and len(t.args) == 2:
        r = limit(I, t.args[1], x, d)
        if isinstance(r, tuple):
            if t.args[0] in LIMITS:
                return LIMITS[t.args[0]][1 if r[1] > 0 else 0]
            return None
        return None if r is None else tm.mk("fn", t.args[0], r)
    if t.op == "ite":
        c = I.decide(t.args[0])
        if c is not None:
            return limit(I, t.args[1 if c else 2], x, d)
    return None


def lpow(I, a, e, x, d):
    if a.op == "e":
        r = limit(I, e, x, d)
        if isinstance(r, tuple):
            return ("inf", 1) if r[1] > 0 else ZERO
        return None if r is None else tm.exp(r)
    if dep(e, x):
        return None
    r = limit(I, a, x, d)
    if r is None:
        return None
    s, n = sgn(I, e), tm.num(e)
    if s is None:
        return None
    if isinstance(r, tuple):
        if s < 0:
            return ZERO
        if r[1] > 0:
            return ("inf", 1)
        if n is not None and n.denominator == 1:
            return ("inf", -1 if n % 2 else 1)
        return None
    if tm.num(r) == 0:
        return ZERO if s > 0 else None
    return tm.power(r, e)
