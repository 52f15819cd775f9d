"""Equality of value numbers by random interpretation (Gulwani/Necula): polynomial identity testing of normal forms.

Two value numbers that normalise to the same term are equal.  When the normal forms differ, both are interpreted under
random assignments of their atoms (respecting the facts, bounds, kinds and order constraints of the abstract state, with
uninterpreted functions as fixed random smooth functions and small random extents for symbolic dimensions).  Only terms
are evaluated; no code of the analysed program is run.  A disagreement is positive evidence that the values differ;
agreement on all assignments means they are equal with overwhelming probability; terms with unknown parts stay undecided.
"""
from __future__ import annotations
import os
import math
import random
import time
import zlib
from fractions import Fraction
from . import terms as tm
from .terms import T

OPAQUE = ("unk", "lpre", "mu", "uninit", "lmark", "anyof", "tmpix", "tmpk", "PRE", "lv", "deep", "ex", "val", "symlist")


class Opaque(Exception):
    pass


class Skip(Exception):
    pass


def opaque(t, I=None):
    return any(x.op in OPAQUE and zero_iter(I, x) is None for x in tm.walk(t))


def zero_iter(I, x):
    """value of a loop-carried scalar when the loop body never runs (one of the feasible executions)"""
    if I is None or x.op != "lpre":
        return None
    p = I.loopphi.get(x)
    if p is None or not isinstance(p[0], T) or x in tm.walk(p[0]) or opaque(p[0], I):
        return None
    return p[0]


def one_iter(I, x):
    """value of a loop-carried scalar after exactly one iteration of a while loop, and the conditions of entering it"""
    if I is None or x.op != "lpre" or x.args[0] not in I.loopenter:
        return None
    p = I.loopphi.get(x)
    if p is None or len(p[1]) != 1 or zero_iter(I, x) is None or opaque(p[1][0], I):
        return None
    return p[1][0], I.loopenter[x.args[0]]


def has_lpre(t):
    return any(x.op == "lpre" for x in tm.walk(t))


class Without:
    """loop choices with one loop that does not iterate"""

    def __init__(self, mix, u):
        self.mix, self.u = mix, u

    def __contains__(self, u):
        return u == self.u or u in self.mix

    def __getitem__(self, u):
        return False if u == self.u else self.mix[u]

    def __setitem__(self, u, v):
        self.mix[u] = v


class Val:
    def __init__(self, I, seed, facts=()):
        self.I = I
        self.seed = seed
        self.zero = None
        self.mix = None         # loop -> whether it iterates once (otherwise never)
        self.subs = {}
        self.memo = {}
        self.cache = {}
        self.left = None        # evaluation steps left
        self.force = {}         # (atom, index) -> value chosen on purpose
        self.ranked = {}
        self.eqs = dict(I.eqs) if I is not None else {}
        if I is not None and I.ranks:
            self._place_ranks()

    def _place_ranks(self):
        groups = {}
        for t, (g, r) in self.I.ranks.items():
            groups.setdefault(g, {}).setdefault(r, []).append(t)
        for g, rs in groups.items():
            v = -1.5 - self.rnd("rank0", g)
            for r in sorted(rs):
                v += 0.3 + 1.2 * self.rnd("rank", g, r)
                for t in rs[r]:
                    self.ranked[t] = v
            if all(t.op == "atom" and len(t.args) > 1 and t.args[1] in ("posfloat",) for x in rs.values() for t in x):
                for x in rs.values():
                    for t in x:
                        self.ranked[t] += 4.0

    def rnd(self, *key):
        k = repr(key)
        v = self.cache.get(k)
        if v is None:
            v = random.Random(zlib.crc32((k + "|%d" % self.seed).encode()) * 2654435761 % (1 << 61) + self.seed).random()
            self.cache[k] = v
        return v

    # ------------------------------------------------------------------ scalars
    def leaf(self, t, idx=()):
        """value of an atom (or an element of an opaque array)"""
        if self.force and (t, idx) in self.force:
            return self.force[(t, idx)]
        key = tm.order_key(t)
        kind = t.args[1] if t.op == "atom" and len(t.args) > 1 else "float"
        u = self.rnd(key, idx)
        lo = hi = None
        I = self.I
        if I is not None:
            l, h = I.lo.get(t), I.hi.get(t)
            lo = float(l[0]) if l else None
            hi = float(h[0]) if h else None
        if kind == "dim":
            lo = 2 if lo is None or lo < 2 else lo
            return int(lo) + int(u * 3)
        if kind in ("int", "posint"):
            lo = (1 if kind == "posint" else -3) if lo is None else math.ceil(lo)
            hi = lo + 7 if hi is None else math.floor(hi)
            return int(lo + int(u * (hi - lo + 1 - 1e-9)))
        if kind == "bool":
            return u < 0.5
        if kind == "posfloat" and lo is None:
            lo = 0.15
        if lo is not None and hi is not None:
            return lo + (0.05 + 0.9 * u) * (hi - lo)
        if lo is not None:
            return lo + 0.05 + 2.5 * u
        if hi is not None:
            return hi - 0.05 - 2.5 * u
        return -2.0 + 4.0 * u

    def drawval(self, t, idx=()):
        if self.force and (t, idx) in self.force:
            return self.force[(t, idx)]
        b = t.args[-1]
        u = self.rnd("draw", tm.order_key(t), idx)
        if isinstance(b, tuple) and len(b) == 3 and b[0] == "rng" and t.args[2] != "uniform":
            lo = float(b[1]) if b[1] is not None else None
            hi = float(b[2]) if b[2] is not None else None
            if t.args[2] in ("binomial", "integers"):
                return lo + int(u * (hi - lo + 1 - 1e-9))
            if t.args[2] == "geometric":
                return 1 + int(u * 4)
            if lo is not None and hi is not None:
                return lo + (hi - lo) * u
            return (lo or 0.0) + 3 * u
        if t.args[2] == "uniform":
            d = dict(t.args[3]) if len(t.args) > 3 and isinstance(t.args[3], tuple) else {}
            if "low" in d and "high" in d:
                try:
                    lo, hi = self.ev(d["low"], ()), self.ev(d["high"], ())
                    u = u * 0.1 if u < 0.3 else (1 - (1 - u) * 0.1 if u > 0.7 else u)
                    return lo + (hi - lo) * u
                except (Opaque, TypeError):
                    pass
        return -2.0 + 4.0 * u

    def smooth(self, name, vals):
        """fixed random smooth function"""
        acc = 3.0 * self.rnd("uf", name)
        k = 0
        for v in flat(vals):
            c = 0.4 + 1.3 * self.rnd("ufc", name, k)
            if isinstance(v, bool):
                acc += c * (1.0 if v else 0.0)
            elif isinstance(v, (int, float)):
                if math.isnan(v):
                    acc += 7.13 * c
                elif math.isinf(v):
                    acc += 9.7 * c * (1 if v > 0 else -1)
                else:
                    acc += c * (v if abs(v) < 50 else 50 * math.tanh(v / 50))
            else:
                acc += c * (1 + zlib.crc32(repr(v).encode()) % 1000 / 250.0)
            k += 1
        return 2.0 * math.sin(acc) + 0.5 * math.cos(2.3 * acc)

    # ------------------------------------------------------------------ evaluation
    def ev(self, t, env=()):
        """env: tuple of (bv term, value)"""
        key = (t, env)
        if key in self.memo:
            v = self.memo[key]
            if isinstance(v, Exception):
                raise v
            return v
        if env and not has_free(t):
            v = self.ev(t, ())
            self.memo[key] = v
            return v
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                raise Skip()
        try:
            v = self._ev(t, env)
        except (OverflowError, ZeroDivisionError):
            e = Skip()
            self.memo[key] = e
            raise e
        except (Opaque, Skip) as e:
            self.memo[key] = e
            raise
        self.memo[key] = v
        return v

    def num(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, bool):
            return 1 if v else 0
        if not isinstance(v, (int, float)):
            raise Opaque()
        if isinstance(v, float) and (math.isnan(v)):
            raise Skip()
        return v

    def _ev(self, t, env):
        op = t.op
        if op in OPAQUE:
            z = zero_iter(self.I, t)
            if z is not None:
                if self.mix is not None and t.op == "lpre":
                    u = t.args[0]
                    if u not in self.mix:
                        self.mix[u] = self.rnd("mix", u) < 0.5
                    o = one_iter(self.I, t) if self.mix[u] else None
                    if self.mix[u] and o is None:
                        raise Opaque()
                    if o is not None:
                        sub = self.subs.get(u)
                        if sub is None:
                            sub = self.subs[u] = Val(self.I, self.seed)
                            sub.cache = self.cache
                            sub.mix = Without(self.mix, u)
                        for c in o[1]:
                            if not sub.bool(c):
                                raise Skip()
                        return sub.ev(o[0], env)
                    return self.ev(z, env)
                if self.zero is not None:
                    o = one_iter(self.I, t)
                    if o is not None:
                        for c in o[1]:
                            if not self.zero.bool(c):
                                raise Skip()
                        return self.zero.ev(o[0], env)
                    raise Opaque()
                return self.ev(z, env)
            raise Opaque()
        if t in self.ranked:
            return self.ranked[t]
        e = self.eqs.get(t)
        if e is not None and e is not t:
            return self.ev(e, env)
        if op == "poly":
            n = tm.num(t)
            if n is not None:
                return int(n) if n.denominator == 1 else float(n)
            s = 0
            for m, c in t.args[0]:
                p = int(c) if c.denominator == 1 else float(c)
                for a, e in m:
                    if e is tm.ONE:
                        p = p * self.num(a, env)
                    else:
                        p = p * self.pw(self.num(a, env), self.num(e, env))
                s = s + p
            return s
        if op == "const":
            return t.args[1]
        if op == "atom":
            return self.leaf(t)
        if op in ("bv", "ix"):
            for b, v in env:
                if b is t:
                    return v
            raise Opaque()
        if op == "sel":
            return self.index(t.args[0], tuple(self.num(x, env) for x in t.args[1:]), env)
        if op == "draw":
            return self.drawval(t)
        if op == "uf":
            return self.smooth("uf:" + str(t.args[0]), self.ufargs(t, env))
        if op == "pos":
            d = self.num(t.args[0], env)
            if d != 0 and abs(d) < 1e-11:
                raise Skip()
            return d > 0
        if op == "eq0":
            d = self.num(t.args[0], env)
            return abs(d) < 1e-11
        if op == "eq":
            a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
            return same(a, b) is True
        if op == "not":
            return not self.bool(t.args[0], env)
        if op == "and":
            return self.conn(t.args, env, False)
        if op == "or":
            return self.conn(t.args, env, True)
        if op in ("ite", "phi"):
            return self.ev(t.args[1] if self.bool(t.args[0], env) else t.args[2], env)
        if op == "min":
            return min(self.num(x, env) for x in t.args)
        if op == "max":
            return max(self.num(x, env) for x in t.args)
        if op == "abs":
            return abs(self.num(t.args[0], env))
        if op == "log":
            x = self.num(t.args[0], env)
            if x <= 0:
                raise Skip()
            return math.log(x)
        if op == "e":
            return math.e
        if op == "pi":
            return math.pi
        if op == "numatom":
            return float(t.args[0])
        if op == "inf":
            return math.inf * t.args[0]
        if op == "nan":
            return math.nan
        if op == "fn":
            return self.fn(t, env)
        if op == "case":
            i = self.num(t.args[0], env)
            k = int(i)
            if not -len(t.args) + 1 <= k < len(t.args) - 1:
                raise Skip()
            return self.ev(t.args[1:][k], env)
        if op == "arr":
            return self.mat(t, env)
        if op == "red":
            return self.red(t, env)
        if op == "count":
            return sum(1 for x in flat([self.ev(t.args[0], env)]) if x)
        if op == "nth":
            pos = []

            def find(v, at):
                if isinstance(v, tuple):
                    for q, x in enumerate(v):
                        find(x, at + (q,))
                elif v:
                    pos.append(at)
            find(self.ev(t.args[0], env), ())
            j = self.num(t.args[1], env)
            if not 0 <= j < len(pos):
                raise Skip()
            return pos[int(j)][t.args[2]]
        if op in ("mred", "compressed"):
            a, m = (t.args[1], t.args[2]) if op == "mred" else t.args
            av, mv = flat([self.ev(a, env)]), self.maskvals(a, m, env)
            xs = [x for x, y in zip(av, mv) if y]
            if op == "compressed":
                return tuple(xs)
            return self.reduce(t.args[0], xs)
        if op == "argred":
            if len(t.args) == 2:
                xs = list(flat([self.ev(t.args[1], env)]))
            else:
                n = int(self.num(t.args[1], env))
                if n > 4000:
                    raise Skip()
                b = tm.mk("bv", t.args[2])
                xs = [self.num(t.args[3], env + ((b, i),)) for i in range(n)]
            if t.args[0] == "choice":
                return self.smooth("choice", xs)
            best = min(xs) if "min" in t.args[0] else max(xs)
            return xs.index(best)
        if op in ("tuple", "list"):
            return tuple(self.ev(x, env) for x in t.args)
        if op == "dict":
            return ("dict",) + tuple(sorted((repr(self.ev(k.args[0], env)), self.ev(k.args[1], env)) for k in t.args))
        if op == "isnan":
            return isinstance(self.ev(t.args[0], env), float) and math.isnan(self.ev(t.args[0], env))
        if op == "isfin":
            return math.isfinite(self.num(t.args[0], env))
        if op == "isclose":
            a, b = self.num(t.args[0], env), self.num(t.args[1], env)
            return abs(a - b) <= 1e-8 + 1e-5 * abs(b)
        if op == "truth":
            x = t.args[0]
            if x.op in ("isinst", "choice"):
                return self.rnd("truth", tm.order_key(x)) < 0.5
            v = self.ev(x, env)
            return bool(v) if not isinstance(v, tuple) else bool(v)
        if op == "choice":
            return self.rnd("truth", tm.order_key(t)) < 0.5
        if op == "isinst":
            return self.rnd("truth", tm.order_key(t)) < 0.5
        if op == "range":
            if any(abs(self.num(x, env)) > 10000 for x in t.args):
                raise Skip()
            return tuple(range(*[int(self.num(x, env)) for x in t.args]))
        if op == "len":
            return len(self.ev(t.args[0], env)) if t.args[0].op in ("arr", "tuple", "list") else \
                2 + int(4 * self.rnd("len", tm.order_key(t)))
        if op == "dim":
            return 2 + int(4 * self.rnd("dim", tm.order_key(t)))
        if op == "strof" and len(t.args) == 3 and all(isinstance(x, T) for x in t.args[1:]) and t.args[2].op == "const" \
                and isinstance(t.args[2].args[1], str):
            v = self.ev(t.args[1], env)
            if isinstance(v, (int, float)):
                return self.formatted(v, t.args[2].args[1])
        if op == "fstr":
            ps = [self.ev(x, env) for x in t.args]
            return "".join(ps) if all(isinstance(p, str) for p in ps) else (op,) + tuple(ps)
        if op in ("strof", "kw", "kv"):
            return (op,) + tuple(self.ev(x, env) if isinstance(x, T) else x for x in t.args)
        if op in ("objid", "func", "ext", "cls", "partial", "bound"):
            return ("id",) + tuple(tm.order_key(x) if isinstance(x, T) else x for x in t.args)
        if op == "rep":
            return (op,) + tuple(self.ev(x, env) if isinstance(x, T) else x for x in t.args)
        raise Opaque()

    def formatted(self, v, spec):
        """text of a number; values next to a rounding boundary are no witnesses"""
        try:
            r = format(v, spec)
            if isinstance(v, float) and (format(v * (1 + 1e-9) + 1e-12, spec) != r or format(v * (1 - 1e-9) - 1e-12, spec) != r):
                raise Skip()
        except (ValueError, TypeError):
            raise Opaque()
        return r

    def ufargs(self, t, env):
        out = []
        for a in t.args[1:]:
            if isinstance(a, T):
                out.append(self.ev(a, env))
            elif isinstance(a, tuple):
                for x in a:
                    if isinstance(x, T):
                        out.append(self.ev(x, env))
                    elif isinstance(x, tuple):
                        out.extend(self.ev(y, env) if isinstance(y, T) else y for y in x)
                    else:
                        out.append(x)
            else:
                out.append(a)
        return out

    def maskvals(self, a, m, env):
        if m.op == "arr":
            return list(flat([self.ev(m, env)]))
        shape = [int(self.num(s, env)) for s in a.args[0]] if a.op == "arr" else None
        if shape is None:
            raise Opaque()
        out = []

        def rec(k, e):
            if k == len(shape):
                out.append(self.bool(m, e))
                return
            for i in range(shape[k]):
                rec(k + 1, e + ((tm.IX[k], i),))
        rec(0, env)
        return out

    def bool(self, t, env=()):
        v = self.ev(t, env)
        if isinstance(v, (bool, int, float)):
            return bool(v)
        if v is None:
            return False
        if isinstance(v, str):
            return bool(v)
        raise Opaque()

    def conn(self, xs, env, stop):
        exc = None
        for x in xs:
            try:
                if self.bool(x, env) is stop:
                    return stop
            except (Opaque, Skip) as e:
                exc = e
        if exc is not None:
            raise exc
        return not stop

    def pw(self, a, e):
        if isinstance(e, float) and e == int(e):
            e = int(e)
        if isinstance(e, int):
            if e < 0 and a == 0:
                raise Skip()
            if abs(e) > 60:
                raise Skip()
            return a ** e if e >= 0 else 1.0 / (a ** -e)
        if a < 0:
            raise Skip()
        if a == 0:
            if e > 0:
                return 0.0
            raise Skip()
        x = math.exp(e * math.log(a))
        return x

    def fn(self, t, env):
        name = t.args[0]
        if len(t.args) == 2 and isinstance(t.args[1], T):
            v = self.ev(t.args[1], env)
            if isinstance(v, (int, float)):
                v = float(v) if not isinstance(v, int) else v
                if isinstance(v, float) and math.isnan(v):
                    raise Skip()
                f = {"sin": math.sin, "cos": math.cos, "tan": math.tan, "tanh": math.tanh, "sinh": math.sinh,
                     "cosh": math.cosh, "arctan": math.atan, "erf": math.erf, "expm1": math.expm1,
                     "arcsinh": math.asinh, "expit": lambda x: 1 / (1 + math.exp(-x))}.get(name)
                if f:
                    return f(v)
                if name in ("arcsin", "arccos"):
                    if abs(v) > 1:
                        raise Skip()
                    return math.asin(v) if name == "arcsin" else math.acos(v)
                if name in ("log1p", "arccosh", "arctanh"):
                    try:
                        return {"log1p": math.log1p, "arccosh": math.acosh, "arctanh": math.atanh}[name](v)
                    except ValueError:
                        raise Skip()
                if name.startswith("wrap_"):
                    bits = int(name.lstrip("wrap_uint"))
                    w = int(v) % 2 ** bits
                    return w - 2 ** bits if name[5] == "i" and w >= 2 ** (bits - 1) else w
                if name == "sign":
                    return (v > 0) - (v < 0)
                if name in ("floor", "ceil", "int", "round"):
                    if not isinstance(v, int):
                        r = v - round(v)
                        if r != 0 and abs(r) < 1e-10:
                            v = float(round(v))
                        if name == "round" and abs(abs(r) - 0.5) < 1e-10:
                            raise Skip()
                    return {"floor": math.floor, "ceil": math.ceil, "int": int, "round": round}[name](v)
        if name in ("floordiv", "mod"):
            a, b = self.num(t.args[1], env), self.num(t.args[2], env)
            if b == 0:
                raise Skip()
            return a // b if name == "floordiv" else a % b
        if name == "roundn":
            v, nd = self.num(t.args[1], env), self.num(t.args[2], env)
            r = round(v, int(nd))
            if round(v + 1e-10, int(nd)) != r or round(v - 1e-10, int(nd)) != r:
                if abs(r - v) > 1e-9:
                    raise Skip()
            return r
        if name == "arctan2":
            return math.atan2(self.num(t.args[1], env), self.num(t.args[2], env))
        vals = [self.ev(x, env) if isinstance(x, T) else x for x in t.args[1:]]
        if name == "std" or name == "var":
            xs = list(flat(vals))
            m = sum(xs) / len(xs)
            v = sum((x - m) ** 2 for x in xs) / len(xs)
            return v if name == "var" else math.sqrt(v)
        return self.smooth("fn:" + name, vals)

    def red(self, t, env):
        name, dim, bi, body = t.args
        n = int(self.num(dim, env))
        if n > 4000:
            raise Skip()
        b = tm.mk("bv", bi)
        return self.reduce(name, [self.ev(body, env + ((b, i),)) for i in range(n)])

    def reduce(self, name, xs):
        if name == "sum":
            return sum(xs)
        if name == "prod":
            return math.prod(xs)
        if name in ("min", "max", "amin", "amax"):
            if not xs:
                raise Skip()
            return min(xs) if "min" in name else max(xs)
        if name == "any":
            return any(xs)
        if name == "all":
            return all(xs)
        return self.smooth("red:" + name, xs)

    def mat(self, t, env):
        shape, b, body = t.args
        dims = [int(self.num(s, env)) for s in shape]
        if math.prod(dims) > 4000 or any(d < 0 for d in dims):
            raise Skip()

        def rec(k, e):
            if k == len(dims):
                return self.ev(body, e)
            bk = tm.mk("bv", b + k)
            return tuple(rec(k + 1, e + ((bk, i),)) for i in range(dims[k]))
        return rec(0, env)

    def index(self, base, idx, env):
        op = base.op
        for i in idx:
            if i != int(i):
                raise Skip()
        idx = tuple(int(i) for i in idx)
        if op == "atom":
            return self.leaf(base, idx)
        if op == "draw":
            return self.drawval(base, idx)
        if op == "uf":
            return self.smooth("uf:" + str(base.args[0]), list(self.ufargs(base, env)) + ["ix"] + list(idx))
        if op == "arr":
            shape, b, body = base.args
            e = env
            for k, i in enumerate(idx):
                n = int(self.num(shape[k], env))
                if not 0 <= i < n:
                    raise Skip()
                e = e + ((tm.mk("bv", b + k), i),)
            return self.ev(body, e)
        if op in OPAQUE and op != "lpre":
            raise Opaque()
        if op in ("ite", "phi"):
            return self.index(base.args[1] if self.bool(base.args[0], env) else base.args[2], idx, env)
        v = self.ev(base, env)
        for i in idx:
            if not isinstance(v, tuple):
                return self.smooth("sel", [v] + list(idx))
            if not 0 <= i < len(v):
                raise Skip()
            v = v[i]
        return v


_free = {}


def has_free(t):
    r = _free.get(t)
    if r is None:
        r = t.op in ("bv", "ix") or any(has_free(c) for c in tm.children(t))
        _free[t] = r
    return r


def flat(xs):
    for x in xs:
        if isinstance(x, tuple):
            yield from flat(x)
        else:
            yield x


def same(a, b, tol=1e-9):
    """True / False for evaluated values"""
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a) != len(b):
            return False
        return all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= tol * (1 + abs(a) + abs(b))
    return a == b


def holds(v, facts):
    """all facts hold under the valuation; unknown facts are ignored (returned count), Skip propagates as False"""
    unknown = 0
    for f in facts:
        try:
            if not v.bool(f):
                return False, 0
        except Opaque:
            unknown += 1
        except Skip:
            return False, 0
        except RecursionError:
            unknown += 1
    return True, unknown


def valuations(I, facts, n=12, tries=600, seed=1, once=False):
    """random valuations satisfying the facts"""
    got = 0
    fs = [f for f in facts if not has_free(f)]
    order = sorted(fs, key=lambda f: tm.weight(f))
    for k in range(tries):
        v = Val(I, seed * 100003 + k)
        if once == "mix":
            v.mix = {}
        elif once:
            # executions in which every while loop iterates exactly once
            v.zero = Val(I, seed * 100003 + k)
            v.zero.cache = v.cache
        try:
            ok, unk = holds(v, order)
            if once and unk:
                continue
        except RecursionError:
            continue
        if ok:
            got += 1
            yield v
            if got >= n:
                return


def conditions(*ts):
    """the interpreted comparisons that decide something inside the terms, simplest first"""
    out = {}
    for t in ts:
        for x in tm.walk(t):
            if x.op in ("pos", "eq0") and x not in out and tm.weight(x) < 400:
                out[x] = tm.weight(x)
            elif x.op == "fn" and str(x.args[0]).startswith("wrap_"):
                c = tm.mk("pos", tm.sub(x.args[1], tm.const(2 ** int(x.args[0].lstrip("wrap_uint")) - 1)))
                out[c] = tm.weight(c)
            elif x.op in ("min", "max") and 2 <= len(x.args) <= 3 and tm.weight(x) < 200:
                for k in range(1, len(x.args)):
                    c = tm.mk("pos", tm.sub(x.args[0], x.args[k]))
                    out[c] = tm.weight(c)
    return sorted(out, key=lambda x: (out[x], tm.order_key(x)))


def bound_vars(t):
    return {x for x in tm.walk(t) if x.op in ("bv", "ix")}


# draws that can take any value (any positive value)
FREE_DRAWS = {"normal": None, "standard_normal": None, "lognormal": 0, "exponential": 0, "standard_exponential": 0}


def seen_through(c, v):
    """all parts of a condition, loop-carried values replaced by those of an execution that skips the loop"""
    out, todo = {}, [c]
    while todo:
        for x in tm.walk(todo.pop()):
            if x not in out:
                out[x] = True
                z = zero_iter(v.I, x) if x.op == "lpre" else None
                if z is not None and tm.weight(z) < 400:
                    todo.append(z)
    return out


def leaves(c, v, env):
    """(atom, index) pairs a comparison depends on directly"""
    out = []
    for x in sorted(seen_through(c, v), key=lambda x: tm.weight(x)):
        if x.op == "draw" and x.args[2] in FREE_DRAWS and v.zero is None and v.mix is None:
            out.append((x, ()))
            continue
        if x in v.ranked:
            out.append((x, "rank"))
            out.append((x, "gap"))
            continue
        if x in v.eqs:
            continue
        if x.op == "atom" and len(x.args) > 1 and x.args[1] in ("float", "posfloat", "int", "posint", "dim"):
            out.append((x, ()))
        elif x.op == "sel" and x.args[0].op == "atom" and x.args[0] not in v.ranked:
            try:
                out.append((x.args[0], tuple(int(v.num(i, env)) for i in x.args[1:])))
            except (Opaque, Skip):
                pass
    used = {a for a, i in out if i not in ((), "rank", "gap")}
    return [(a, i) for a, i in out if i != () or a not in used]


def reseed(v, force):
    w = Val(v.I, v.seed)
    w.cache = v.cache
    w.zero = v.zero
    w.mix = v.mix
    w.force = force
    w.ranked = v.ranked
    w.left = 60000
    return w


def admissible(I, leaf, x):
    t = leaf[0]
    kind = t.args[1] if len(t.args) > 1 else "float"
    if t.op == "draw":
        if FREE_DRAWS[t.args[2]] is not None and x <= FREE_DRAWS[t.args[2]] or abs(x) > 1e6:
            return None
        return float(x)
    if kind in ("int", "posint", "dim"):
        if abs(x - round(x)) > 1e-9:
            return None
        x = int(round(x))
        if kind == "posint" and x < 1 or kind == "dim" and x < 1 or abs(x) > 10 ** 6:
            return None
    elif kind == "posfloat" and x <= 0:
        return None
    else:
        x = float(x)
        r = round(x, 9)
        if abs(r - x) < 1e-12 * (1 + abs(x)):
            x = r
    if I is not None:
        l, h = I.lo.get(t), I.hi.get(t)
        if l and x < float(l[0]) or h and x > float(h[0]):
            return None
    return x


def steer(I, v, c, want, env=(), near=False):
    """valuations like v except for one leaf, under which the comparison c has the wanted truth value"""
    d = c.args[0]
    for leaf in leaves(c, v, env)[:8]:
        def at(x):
            y = admissible(I, leaf, x)
            if y is None:
                return None, None
            if leaf[1] == "rank":
                # an ordered group of voltages moves as a whole
                g, off = I.ranks[leaf[0]][0], y - v.ranked[leaf[0]]
                w = reseed(v, v.force)
                w.ranked = {t: r + (off if I.ranks[t][0] == g else 0) for t, r in v.ranked.items()}
                for t, r in w.ranked.items():
                    l, h = I.lo.get(t), I.hi.get(t)
                    if l and r < float(l[0]) or h and r > float(h[0]):
                        return None, None
            elif leaf[1] == "gap":
                # one of them moves between its neighbours
                g, k = I.ranks[leaf[0]]
                w = reseed(v, v.force)
                w.ranked = {t: (y if I.ranks[t] == (g, k) else r) for t, r in v.ranked.items()}
                for t, r in w.ranked.items():
                    if I.ranks[t][0] == g and (r > y and I.ranks[t][1] < k or r < y and I.ranks[t][1] > k or
                                               r == y and I.ranks[t][1] != k):
                        return None, None
            else:
                w = reseed(v, v.force | {leaf: y})
            try:
                return w, w.num(d, env)
            except (Opaque, Skip, RecursionError, TypeError, ValueError, OverflowError):
                return None, None
        pts = []
        grid = (1, 2, 3, 4, -1, 0.5)
        if leaf[1] == "gap":
            y = v.ranked[leaf[0]]
            grid = (y, y + 0.02, y - 0.03, y + 0.1, y - 0.1)
        for x in grid:
            w, y = at(x)
            if w is not None:
                pts.append((x, y))
            if len(pts) == 3:
                break
        goals = []
        if len(pts) == 3:
            (x0, y0), (x1, y1), (x2, y2) = pts
            m = (y1 - y0) / (x1 - x0)
            if abs(m) > 1e-9 and abs((y2 - y0) - m * (x2 - x0)) < 1e-9 * (1 + abs(y2) + abs(y0)):
                root = x0 - y0 / m
                if c.op == "eq0":
                    goals = [root] if want else [root + 1.37]
                else:
                    s = (1 if m > 0 else -1) * (1 if want else -1)
                    goals = [root + s * (0.7 + abs(root) * 0.3), root + s, math.floor(root) + (s + 1) // 2 + s * 1]
                    if near:
                        goals += [root + s * 0.05, root + s * 1e-3, root + s * 1e-6, root + s * 3e-10]
        if c.op == "pos" and not goals:
            goals = [10.0, -10.0, 100.0, 1000.0]
        for g in goals:
            w, y = at(g)
            if w is None:
                continue
            try:
                if w.bool(c, env) is want:
                    yield w
                    if not near:
                        break
            except (Opaque, Skip, RecursionError, TypeError, ValueError):
                continue


DIRECTED = 24


def directed(I, a, b, facts, limit=None):
    """admissible valuations under which a comparison inside a or b comes out as in none of the random ones"""
    limit = DIRECTED if limit is None else limit
    base = list(valuations(I, facts, n=4))
    if not base:
        return
    order = sorted((f for f in facts if not has_free(f)), key=lambda f: tm.weight(f))
    tried = 0
    t0 = time.time()
    for c in conditions(a, b):
        if time.time() - t0 > 4:
            return
        bs = bound_vars(c)
        if len(bs) > 2:
            continue
        envs = [tuple((x, k) for x in sorted(bs, key=tm.order_key)) for k in ((0, 1) if bs else (0,))]
        seen = set()
        for v in base:
            for env in envs:
                try:
                    seen.add(v.bool(c, env))
                except (Opaque, Skip, RecursionError, TypeError, ValueError):
                    seen.add(None)
        if {True, False} <= seen or not ({True, False} & seen):
            continue
        want = False if True in seen else True
        if tried >= limit:
            return
        tried += 1
        n = 0
        for v in base:
            for w in steer(I, v, c, want, envs[0]):
                try:
                    ok, unk = holds(w, order)
                except RecursionError:
                    continue
                if ok and not unk:
                    n += 1
                    yield c, w
                    if n >= 3:
                        break
            if n >= 3:
                break


def expand(a, like):
    """undo the eta reduction of a whole array for the comparison with an array given element by element"""
    shape, b = like.args[0], like.args[1]
    return tm.mk("arr", shape, b, tm.sel(a, *[tm.mk("bv", b + k) for k in range(len(shape))]))


def equal(I, a, b, facts=None, n=6):
    """(True|False|None, detail)"""
    if a is b:
        return True, "same value number"
    if I is not None:
        a2, b2 = I.simp(a), I.simp(b)
        if a2 is b2:
            return True, "same value number under the path facts"
    if opaque(a, I) or opaque(b, I):
        return None, "unknown part"
    if a.op == "arr" and b.op in ("atom", "uf", "draw"):
        b = expand(b, a)
    elif b.op == "arr" and a.op in ("atom", "uf", "draw"):
        a = expand(a, b)
    facts = I.facts if facts is None else facts
    good = 0
    for v in valuations(I, facts, n=n):
        try:
            x, y = v.ev(a), v.ev(b)
        except Opaque:
            return None, "uninterpretable part"
        except Skip:
            continue
        except (RecursionError, TypeError, ValueError):
            return None, "not evaluable"
        if not same(x, y):
            if foreign(a) or foreign(b):
                return None, "different external functions"
            return False, (short(x), short(y), v)
        good += 1
    if good >= 3 and (has_lpre(a) or has_lpre(b)):
        good = 0
        for v in valuations(I, facts, n=n, once=True):
            try:
                x, y = v.ev(a), v.ev(b)
            except (Opaque, Skip, RecursionError, TypeError, ValueError):
                continue
            if not same(x, y):
                return False, (short(x), short(y), v)
        return None, "equal when no loop iterates"
    if good >= 3:
        bad = {}
        try:
            t0 = time.time()
            for c, v in directed(I, a, b, list(facts) + ([p for p in I.pc if p not in facts] if I is not None else [])):
                if time.time() - t0 > 4:
                    break
                try:
                    x, y = v.ev(a), v.ev(b)
                except (Opaque, Skip, RecursionError, TypeError, ValueError, OverflowError):
                    continue
                if not same(x, y, 1e-7):
                    bad.setdefault(c, []).append((short(x), short(y), v))
                    if len(bad[c]) >= 2 and not (foreign(a) or foreign(b)):
                        return False, bad[c][0]
                good += 1
        except RecursionError:
            pass
        return True, "equal by random interpretation (%d assignments)" % good
    return None, "no admissible assignment found"


INTERPRETED = {"wrap_uint8", "wrap_int8", "wrap_int16", "wrap_uint16", "wrap_int32", "wrap_uint32", "sin", "cos", "tan", "tanh", "sinh", "cosh", "arctan", "arctan2", "erf", "arcsin", "arccos", "sign", "floor", "ceil", "int",
               "round", "roundn", "floordiv", "mod", "std", "var", "expit", "log1p", "expm1", "arcsinh", "arccosh", "arctanh"}


def foreign(t):
    """names of external functions without an interpretation"""
    out = set()
    for x in tm.walk(t):
        if x.op == "uf" and isinstance(x.args[0], str) and "." in x.args[0]:
            out.add(x.args[0])
        elif x.op == "fn" and x.args[0] not in INTERPRETED:
            out.add(x.args[0])
    return out


def literals(v, f, want=True):
    """comparisons (with the truth value they should have) whose change may make f come out as wanted"""
    try:
        if v.bool(f) is want:
            return []
    except (Opaque, Skip, RecursionError, TypeError, ValueError, OverflowError):
        pass
    if f.op in ("pos", "eq0"):
        return [(f, want)]
    if f.op == "not":
        return literals(v, f.args[0], not want)
    if f.op in ("ite", "phi"):
        try:
            now = v.bool(f.args[0])
        except (Opaque, Skip, RecursionError, TypeError, ValueError, OverflowError):
            return []
        return literals(v, f.args[1] if now else f.args[2], want) + literals(v, f.args[0], not now)
    if f.op in ("and", "or"):
        out = []
        for x in f.args:
            out += literals(v, x, want)
            if out and (f.op == "and") is want:
                return out
        return out
    return []


def repair(I, facts, seeds=3, steps=5):
    """an assignment satisfying the facts, found by moving single leaves of random ones"""
    fs = sorted((f for f in facts if not has_free(f)), key=tm.weight)
    if len(fs) != len(list(facts)) or sum(map(tm.weight, fs)) > 20000:
        return None
    for seed in range(seeds):
        v = Val(I, 77003 + seed)
        for _ in range(steps):
            bad = None
            for f in fs:
                try:
                    if v.bool(f):
                        continue
                except (Opaque, Skip, RecursionError, TypeError, ValueError, OverflowError):
                    pass
                bad = f
                break
            if bad is None:
                return v
            best = None
            for c, want in literals(v, bad)[:4]:
                for w in steer(I, v, c, want, near=True):
                    try:
                        n = 0
                        for f in fs:
                            if not w.bool(f):
                                break
                            n += 1
                    except (Opaque, Skip, RecursionError, TypeError, ValueError, OverflowError):
                        pass
                    if best is None or n > best[0]:
                        best = (n, w)
            if best is None:
                break
            v = best[1]
    return None


def counterexample(I, c):
    """an assignment satisfying the facts under which the condition clearly fails"""
    if tm.weight(c) > 2000:
        return None
    w = repair(I, list(I.facts) + [tm.not_(c)])
    if w is None:
        return None
    try:
        if w.bool(c) or not all(w.bool(f) for f in I.facts if not has_free(f)):
            return None
        for f, want in literals(w, c):
            if abs(w.num(f.args[0], ())) < 1e-7:
                return None
    except (Opaque, Skip, RecursionError, TypeError, ValueError, OverflowError):
        return None
    return w


def feasible(I, facts, pc=(), n=1, tries=800):
    """a valuation satisfying all facts, None when none was found; 'unknown' when some fact cannot be interpreted"""
    allf = list(facts) + list(pc)
    if any(opaque(f, I) or foreign(f) for f in allf):
        return "unknown"
    for v in valuations(I, allf, n=1, tries=tries):
        ok, unk = holds(v, allf)
        return "unknown" if unk else v
    if not any(has_lpre(f) for f in allf):
        w = repair(I, allf)
        if w is not None:
            return w
    if any(has_lpre(f) for f in allf):
        # no execution in which no while loop iterates: at most one iteration of every loop
        for v in valuations(I, allf, n=1, tries=3 * tries, once="mix"):
            return v
        return "unknown"
    return None


def short(x):
    if isinstance(x, tuple):
        xs = list(flat([x]))
        return "[" + ", ".join(short(y) for y in xs[:4]) + (", …" if len(xs) > 4 else "") + "]"
    if isinstance(x, float):
        return "%.4g" % x
    return repr(x)
