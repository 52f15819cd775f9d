"""Abstract interpreter over the Python syntax trees of the analysed repository.

It never imports or executes the analysed code.  One abstract state (immutable heap cells, path facts, effect log) is
propagated through the syntax tree; at control-flow joins states are merged with gated values (value numbers over
gated single assignment), loops are summarised (index-disjoint stores, appends, reductions) or havocked, and early
exits are collected per construct and merged where control continues.  No paths are enumerated and no solver is used.
"""
from __future__ import annotations
import ast
import builtins
import os
import sys
from fractions import Fraction
from . import terms as tm
from .terms import T, const, mk, IX, TRUE, FALSE, NONE, ZERO, ONE
from .values import *

sys.setrecursionlimit(20000)


class Entry:
    __slots__ = ("exit", "snap")

    def __init__(self, exit, snap):
        self.exit, self.snap = exit, snap


class Ev:
    """effect log record"""
    __slots__ = ("kind", "data", "loc", "stack", "prev", "pcn")

    def __init__(self, kind, data, loc, stack):
        self.kind, self.data, self.loc, self.stack = kind, data, loc, stack

    def __repr__(self):
        return "Ev(%s, %r @%s)" % (self.kind, self.data, self.loc)


class Interp:
    MAXDEPTH = 60

    def __init__(self, root="/repo", packages=("simcats",)):
        self.decmemo = {}
        self.finite = set()
        from . import npmodel
        self.root = root
        self.packages = packages
        self.heap = {}
        self.meta = {}
        self.nid = 0
        self.facts = frozenset()
        self.smallarr = None
        self.eqs = {}
        self.ranks = {}
        self.lo = {}
        self.hi = {}
        self.pc = ()
        self.log = None            # linked list (prev, ev)
        self.sinks = [[]]
        self.frames = []
        self.mods = {}
        self.models = npmodel.MODELS
        self.methods = npmodel.METHODS
        self.np = npmodel
        self.unsup = {}
        self.analysed = set()
        self.snaps = []            # remembered heap contents (harness intrinsic)
        self.statics = {}          # attributes of classes and functions
        self.entries = []          # repository functions called from the harness, most recent last
        self.callsites = set()
        self.counter = 0
        self.loopphi = {}
        self.loopenter = {}
        self.masknd = {}
        self.reshapes = {}          # index map of a reshaped view -> its inverse
        self.lvlen = {}
        self.loc = None
        self.hooks = {}
        self.sources = {}
        self.stubs = {}            # qualname -> python callable(interp, fn, args, kwargs) replacing a repo function
        self.builtins_env = None
        self.obls = []             # obligations decided by harness intrinsics
        self.scene = ""

    # ------------------------------------------------------------ infrastructure
    def fresh(self, prefix, *args):
        self.counter += 1
        return mk(prefix, self.counter, *args)

    def unk(self, why):
        self.unsup[why] = self.unsup.get(why, 0) + 1
        return self.fresh("unk", str(why))

    def alloc(self, cell, **meta):
        self.nid += 1
        self.heap[self.nid] = cell
        if meta:
            self.meta[self.nid] = meta
        return Ref(self.nid)

    def cell(self, ref):
        return self.heap[ref.id]

    def setcell(self, ref, cell):
        self.heap[ref.id] = cell

    def snapshot(self):
        return (dict(self.heap), self.facts, self.pc, self.log, dict(self.eqs))

    def restore(self, s):
        self.heap, self.facts, self.pc, self.log, self.eqs = dict(s[0]), s[1], s[2], s[3], dict(s[4])

    def emit(self, kind, **data):
        ev = Ev(kind, data, self.loc, tuple(f["qual"] for f in self.frames))
        ev.pcn = self.pc
        self.log = (self.log, ev)

    def events(self, log=None, since=None):
        """flatten linked log to a list (Ev, or ('alt', cond, list, list), or ('loop', lv, n, list))"""
        out = []
        l = self.log if log is None else log
        while l is not None and l is not since:
            out.append(l[1])
            l = l[0]
        out.reverse()
        return out

    # ------------------------------------------------------------ facts
    def assume(self, c):
        if c is TRUE:
            return
        self.pc = self.pc + (c,)
        self._addfact(c)

    def _addfact(self, c):
        if c.op == "and":
            for x in c.args:
                self._addfact(x)
            return
        self.facts = self.facts | {c}
        if c.op == "eq0":
            d = tm.to_dict(c.args[0])
            # atom = const (or another term): orient when a lone atom is linear
            for m, k in d.items():
                if len(m) == 1 and m[0][1] is ONE and m[0][0].op != "poly":
                    a = m[0][0]
                    rest = tm._poly({mm: -cc / k for mm, cc in d.items() if mm != m})
                    if a not in tm.walk(rest) and tm.num(rest) is not None:
                        self.eqs[a] = rest
                        break
        if c.op == "eq" and c.args[0].op == "const":
            if c.args[1].op in ("atom", "sel", "uf"):
                self.eqs[c.args[1]] = c.args[0]

    def simp(self, t):
        """normalise under current facts (equalities, decided conditions)"""
        if self.eqs:
            t = tm.subst(t, self.eqs)
        mp = {}
        for x in list(tm.walk(t)):
            if x.op in ("pos", "eq0", "eq", "not") and x.op != "not":
                d = self._dec(x)
                if d is not None:
                    mp[x] = TRUE if d else FALSE
            elif x.op in ("min", "max"):
                y = self._mm(x)
                if y is not x:
                    mp[x] = y
        if mp:
            t = tm.subst(t, mp)
        return t

    def _mm(self, x):
        best = list(x.args)
        changed = True
        while changed and len(best) > 1:
            changed = False
            for i in range(len(best)):
                for j in range(len(best)):
                    if i != j:
                        d = self._dec(tm.lt(best[i], best[j])) if best[i] is not best[j] else False
                        le = d
                        if d is None or d is False:
                            e = self._dec(tm.lt(best[j], best[i]))
                            if e is False:
                                le = True      # best[i] <= best[j]
                        if le:
                            drop = j if x.op == "min" else i
                            best.pop(drop)
                            changed = True
                            break
                if changed:
                    break
        return tm.minmax(x.op, *best)

    def decide(self, c):
        """True / False / None"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        return self._dec(c)

    def _dec(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c in self.facts:
            return True
        n = tm.not_(c)
        if n in self.facts:
            return False
        if c.op == "and":
            r = [self._dec(x) for x in c.args]
            if any(x is False for x in r):
                return False
            if all(x is True for x in r):
                return True
            return None
        if c.op == "or":
            r = [self._dec(x) for x in c.args]
            if any(x is True for x in r):
                return True
            if all(x is False for x in r):
                return False
            for f in self.facts:       # fact (a or b) entails
                if f.op == "or" and set(f.args) <= set(c.args):
                    return True
            return None
        if c.op == "not":
            r = self._dec(c.args[0])
            return None if r is None else (not r)
        if c.op == "ite":
            r = self._dec(c.args[0])
            if r is not None:
                return self._dec(c.args[1] if r else c.args[2])
            a, b = self._dec(c.args[1]), self._dec(c.args[2])
            return a if a is b else None
        if c.op in ("pos", "eq0", "eq"):
            if self.eqs:
                c2 = tm.subst(c, self.eqs)
                if c2 is not c:
                    return self._dec2(c2)
            return self._dec2(c)
        if c.op == "poly" or c.op in ("atom", "sel", "draw", "uf", "isnan"):
            if c in self.eqs:
                v = self.eqs[c]
                k = tm.num(v)
                if k is not None:
                    return k != 0
        return None

    def _dec2(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        key = (self.facts, c, len(self.eqs), len(self.ranks), len(self.lo), len(self.hi), len(self.lvlen))
        memo = self.decmemo
        if key in memo:
            return memo[key]
        if len(memo) > 200000:
            memo.clear()
        r = memo[key] = self._dec3(c)
        return r

    def _dec3(self, c):
        if c.op == "pos":
            d = c.args[0]
            mms = [x for x in tm.walk(d) if x.op in ("min", "max")]
            if mms:
                mp = {}
                for x in mms:
                    y = self._mm(x)
                    if y is not x:
                        mp[x] = y
                if mp:
                    return self._dec(tm.pos(tm.subst(d, mp)))
            r = self._rank_sign(d)
            if r is not None:
                return r > 0
            lo, hi, los, his = self.bounds(d)
            if lo is not None and (lo > 0 or (lo == 0 and los)):
                return True
            if hi is not None and hi <= 0:
                return False
            for f in self.facts:
                if f.op == "pos":
                    rest = tm.sub(d, f.args[0])          # d = f + rest
                    lo, hi, los, his = self.bounds(rest)
                    if lo is not None and lo >= 0:
                        return True
                    rest = tm.add(d, f.args[0])          # d = rest - f
                    lo, hi, los, his = self.bounds(rest)
                    if hi is not None and hi <= 0:
                        return False
                elif f.op == "not" and f.args[0].op == "pos":
                    g = f.args[0].args[0]                # g <= 0
                    rest = tm.add(d, g)                  # d = rest - g
                    lo, hi, los, his = self.bounds(rest)
                    if lo is not None and (lo > 0 or (lo == 0 and los)):
                        return True
                    rest = tm.sub(d, g)                  # d = g + rest
                    lo, hi, los, his = self.bounds(rest)
                    if hi is not None and hi <= 0:
                        return False
            return None
        if c.op == "eq0":
            d = c.args[0]
            mms = [x for x in tm.walk(d) if x.op in ("min", "max")]
            if mms:
                mp = {}
                for x in mms:
                    y = self._mm(x)
                    if y is not x:
                        mp[x] = y
                if mp:
                    return self._dec(tm.eq(tm.subst(d, mp), ZERO))
            r = self._rank_sign(d)
            if r is not None:
                return r == 0
            lo, hi, los, his = self.bounds(d)
            if (lo is not None and (lo > 0 or (lo == 0 and los))) or (hi is not None and (hi < 0 or (hi == 0 and his))):
                return False
            for f in self.facts:
                if f.op == "pos":
                    for g in (f.args[0], tm.neg(f.args[0])):
                        rest = tm.sub(d, g)
                        lo, hi, los, his = self.bounds(rest)
                        if g is f.args[0]:
                            if lo is not None and lo >= 0:
                                return False
                        elif hi is not None and hi <= 0:
                            return False
            # parity style contradictions: integer-valued equality with non-integer constant
            return None
        if c.op == "eq":
            a, b = c.args
            if a is NONE and self.kind(b) not in ("any", "none"):
                return False
            return None
        return None

    def _rank_sign(self, d):
        if not self.ranks:
            return None
        dd = tm.to_dict(d)
        if len(dd) == 2:
            (m1, c1), (m2, c2) = dd.items()
            if len(m1) == 1 and len(m2) == 1 and m1[0][1] is ONE and m2[0][1] is ONE and c1 == -c2:
                a, b = m1[0][0], m2[0][0]
                if a in self.ranks and b in self.ranks and self.ranks[a][0] == self.ranks[b][0]:
                    s = self.ranks[a][1] - self.ranks[b][1]
                    s = (s > 0) - (s < 0)
                    return s if c1 > 0 else -s
        return None

    def bounds(self, t, depth=0):
        """(lo, hi, lo_strict, hi_strict)"""
        if depth > 12:
            return None, None, False, False
        n = tm.num(t)
        if n is not None:
            return n, n, False, False
        if t.op == "poly":
            lo = hi = Fraction(0)
            los = his = False
            for m, c in t.args[0]:
                l, h, ls, hs = self._mono_bounds(m, depth + 1)
                if c < 0:
                    l, h, ls, hs = h, l, hs, ls
                if l is None:
                    lo = None
                elif lo is not None:
                    lo += c * l
                    los = los or ls
                if h is None:
                    hi = None
                elif hi is not None:
                    hi += c * h
                    his = his or hs
            if lo is None or hi is None:
                # index variables against their own extent:  extent - 1 - k >= 0
                r = self._extent(t)
                if r is not None:
                    l2, h2 = r
                    if lo is None and l2 is not None:
                        lo = l2
                    if hi is None and h2 is not None:
                        hi = h2
            return lo, hi, los, his
        return self._atom_bounds(t, depth + 1)

    def _extent(self, t):
        """replace one loop/index variable by its extreme values"""
        dd = tm.to_dict(t)
        res = [None, None]
        for m, c in dd.items():
            if len(m) == 1 and m[0][1] is ONE and m[0][0] in self.lvlen:
                v = m[0][0]
                n = self.lvlen[v]
                top = tm.sub(n, ONE)
                rest = tm._poly({mm: cc for mm, cc in dd.items() if mm != m})
                cT = const(c)
                at0 = rest
                atN = tm.add(rest, tm.mul(cT, top))
                lo_t, hi_t = (at0, atN) if c > 0 else (atN, at0)
                l = self.bounds(lo_t)[0] if v not in tm.walk(lo_t) else None
                h = self.bounds(hi_t)[1]
                if l is not None:
                    res[0] = l if res[0] is None else max(res[0], l)
                if h is not None:
                    res[1] = h if res[1] is None else min(res[1], h)
        return res if (res[0] is not None or res[1] is not None) else None

    def _mono_bounds(self, m, depth):
        lo, hi, los, his = Fraction(1), Fraction(1), False, False
        for a, e in m:
            ne = tm.num(e)
            l, h, ls, hs = self._atom_bounds(a, depth) if a.op != "poly" else self.bounds(a, depth)
            if ne is None:
                if a is tm.EXP or (l is not None and l >= 0):
                    l, h, ls, hs = Fraction(0), None, True, False
                else:
                    return None, None, False, False
            elif ne.denominator == 1 and ne > 0:
                k = int(ne)
                if k % 2 == 0 and (l is None or l < 0):
                    if l is not None and h is not None:
                        mx = max(abs(l), abs(h)) ** k
                        l, h, ls, hs = Fraction(0), mx, False, False
                    else:
                        l, h, ls, hs = Fraction(0), None, False, False
                else:
                    l = None if l is None else l ** k
                    h = None if h is None else h ** k
            elif ne.denominator == 1 and ne < 0:
                if (l is not None and (l > 0 or (l == 0 and ls))):
                    k = int(-ne)
                    l, h, ls, hs = (Fraction(0) if h is None else 1 / h ** k), (None if l == 0 else 1 / l ** k), \
                        (True if h is None else hs), (False if l == 0 else ls)
                elif h is not None and (h < 0 or (h == 0 and hs)) and ne == -1:
                    l, h, ls, hs = (None if h == 0 else 1 / h), (Fraction(0) if l is None else 1 / l), hs, (l is None)
                elif int(ne) % 2 == 0:
                    l, h, ls, hs = Fraction(0), None, True, False
                else:
                    return None, None, False, False
            else:
                if l is not None and l >= 0:
                    l, h, ls, hs = Fraction(0), None, l > 0 or ls, False
                else:
                    l, h, ls, hs = Fraction(0), None, False, False
            # multiply intervals (only non-negative second factor handled precisely)
            if l is not None and l >= 0 and lo is not None and lo >= 0:
                nlo = lo * l
                nls = (los or lo > 0) and (ls or l > 0) and (los or ls) if nlo == 0 else (los or ls)
                if nlo == 0:
                    nls = (lo > 0 or los) and (l > 0 or ls)
                nhi = None if hi is None or h is None else hi * h
                lo, hi, los, his = nlo, nhi, nls, (his or hs)
            elif h is not None and h <= 0 and lo is not None and lo >= 0:
                # negative times nonneg
                nhi = Fraction(0) if True else None
                nhs = (h < 0 or hs) and (lo > 0 or los)
                nlo = None if (l is None or hi is None) else hi * l
                if lo > 0 and h < 0:
                    nhi = lo * h
                lo, hi, los, his = nlo, nhi, False, nhs
            elif lo is not None and hi is not None and l is not None and h is not None:
                ps = [lo * l, lo * h, hi * l, hi * h]
                lo, hi, los, his = min(ps), max(ps), False, False
            else:
                return None, None, False, False
        return lo, hi, los, his

    def _atom_bounds(self, t, depth):
        if t in self.lo or t in self.hi:
            l, h = self.lo.get(t), self.hi.get(t)
            return (l[0] if l else None), (h[0] if h else None), bool(l and l[1]), bool(h and h[1])
        op = t.op
        if op in ("dim", "len", "count", "nth"):
            return Fraction(1 if op == "dim" else 0), None, False, False
        if op == "atom" and len(t.args) > 1 and t.args[1] in ("dim",):
            return Fraction(1), None, False, False
        if op == "atom" and len(t.args) > 1 and t.args[1] in ("posfloat", "posint"):
            return Fraction(0 if t.args[1] == "posfloat" else 1), None, t.args[1] == "posfloat", False
        if op in ("ix", "lv", "bv"):
            return Fraction(0), None, False, False
        if op in ("abs", "norm"):
            if op == "abs":
                l, h, ls, hs = self.bounds(t.args[0], depth)
                if l is not None and (l > 0 or (l == 0 and ls)):
                    return l, h, ls, hs
                if h is not None and (h < 0 or (h == 0 and hs)):
                    return -h, (None if l is None else -l), hs, ls
            return Fraction(0), None, False, False
        if t is tm.EXP:
            return Fraction(2), Fraction(3), True, True
        if t is tm.PI:
            return Fraction(3), Fraction(4), True, True
        if op in ("min", "max"):
            bs = [self.bounds(x, depth + 1) for x in t.args]
            los = [b[0] for b in bs]
            his = [b[1] for b in bs]
            if op == "min":
                lo = None if any(l is None for l in los) else min(los)
                hs = [h for h in his if h is not None]
                return lo, (min(hs) if hs else None), False, False
            ls = [l for l in los if l is not None]
            hi = None if any(h is None for h in his) else max(his)
            lo = max(ls) if ls else None
            st = any(b[0] == lo and b[2] for b in bs) if lo is not None else False
            return lo, hi, st, False
        if op == "ite":
            a, b = self.bounds(t.args[1], depth + 1), self.bounds(t.args[2], depth + 1)
            lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
            hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
            return lo, hi, a[2] and b[2], a[3] and b[3]
        if op == "fn":
            if t.args[0] in ("sin", "cos", "tanh", "sign", "erf"):
                return Fraction(-1), Fraction(1), False, False
            if t.args[0] in ("cosh",):
                return Fraction(1), None, False, False
            if t.args[0] in ("int", "floor", "round"):
                l, h, ls, hs = self.bounds(t.args[1], depth + 1)
                import math
                return (None if l is None else Fraction(math.floor(l) if t.args[0] != "int" or l < 0 else math.floor(l))), \
                    (None if h is None else Fraction(math.ceil(h))), False, False
            if t.args[0] == "mod":
                l, h, ls, hs = self.bounds(t.args[2], depth + 1)
                if l is not None and l > 0:
                    return Fraction(0), h, False, True
            if t.args[0] == "arctan":
                return Fraction(-2), Fraction(2), False, False
        if op == "draw":
            b = t.args[-1] if isinstance(t.args[-1], tuple) else None
            if b and len(b) == 3 and b[0] == "rng":
                return b[1], b[2], False, False
        if op == "sel":
            if t.args[0] in self.lo or t.args[0] in self.hi:
                return self._atom_bounds(t.args[0], depth)
            if t.args[0].op == "draw":
                return self._atom_bounds(t.args[0], depth)
        if op in ("pos", "eq0", "eq", "not", "and", "or"):
            return Fraction(0), Fraction(1), False, False
        return None, None, False, False

    # ------------------------------------------------------------ kinds
    def kind(self, v):
        """python type name of an abstract scalar: int float bool str none any"""
        if not isinstance(v, T):
            return "obj"
        op = v.op
        if op == "const":
            return {"NoneType": "none"}.get(v.args[0], v.args[0])
        if op in ("pos", "eq0", "eq", "not", "and", "or", "isnan"):
            return "bool"
        if op in ("fstr", "strof"):
            return "str"
        if op == "atom":
            k = v.args[1] if len(v.args) > 1 else "any"
            return {"dim": "int", "posfloat": "float", "posint": "int"}.get(k, k)
        if op in ("dim", "ix", "lv", "bv", "len", "count", "argred", "nth"):
            return "int"
        if op in ("inf", "nan", "pi", "e", "sel", "norm"):
            return "float"
        if op == "poly":
            k = "int"
            for m, c in v.args[0]:
                if c.denominator != 1:
                    return "float"
                for a, e in m:
                    ne = tm.num(e)
                    if ne is None or ne.denominator != 1 or ne < 0:
                        return "float"
                    ka = self.kind(a)
                    if ka in ("any", "npnum"):
                        k = ka
                    elif ka == "float" and k != "any":
                        k = "float"
            return k
        if op == "abs":
            return self.kind(v.args[0])
        if op in ("min", "max"):
            ks = {self.kind(x) for x in v.args}
            return ks.pop() if len(ks) == 1 else "float"
        if op == "ite":
            a, b = self.kind(v.args[1]), self.kind(v.args[2])
            if a == b:
                return a
            if {a, b} <= {"int", "float"}:
                return "float"
            return "any"
        if op == "fn":
            if v.args[0] in ("int",):
                return "int"
            return "float"
        if op == "uf":
            return "any"
        if op == "draw":
            return "float"
        if op == "lpre":
            return "any"
        if op == "red":
            return "float"
        return "any"

    def is_numeric(self, v):
        return isinstance(v, T) and self.kind(v) in ("int", "float", "bool", "npnum")

    # ------------------------------------------------------------ branching / merging
    def run_part(self, f):
        """run f; on exit push to current sink and return (False, None)"""
        try:
            return True, f()
        except DeadX:
            return False, None
        except Exit as e:
            self.sinks[-1].append(Entry(e, self.snapshot()))
            return False, None

    def branch(self, cond, f, g):
        d = self.decide(cond)
        if d is True:
            return f()
        if d is False:
            return g()
        s0 = self.snapshot()
        self.assume(cond)
        la, va = self.run_part(f)
        sa = self.snapshot()
        self.restore(s0)
        self.assume(tm.not_(cond))
        lb, vb = self.run_part(g)
        if not la and not lb:
            raise DeadX()
        if not la:
            return vb
        sb = self.snapshot()
        if not lb:
            self.restore(sa)
            return va
        return self.merge2(cond, s0, sa, sb, va, vb)

    def merge2(self, cond, s0, sa, sb, va, vb):
        ha, hb, h0 = sa[0], sb[0], s0[0]
        heap = dict(ha)
        todo = []
        for k, cb in hb.items():
            ca = ha.get(k)
            if ca is None:
                heap[k] = cb
            elif ca is not cb:
                todo.append((k, ca, cb))
        self.heap = heap
        self.facts = sa[1] & sb[1]
        pa, pb = sa[2], sb[2]
        n = len(s0[2])
        ra, rb = tm.and_(*pa[n:]), tm.and_(*pb[n:])
        o = tm.or_(ra, rb)
        # common conjuncts survive
        self.pc = s0[2] if o is TRUE else s0[2] + (o,)
        self.eqs = {k: v for k, v in sa[4].items() if sb[4].get(k) is v}
        base = s0[3]
        la, lb = self.events(sa[3], base), self.events(sb[3], base)
        if la or lb:
            self.log = (base, ("alt", cond, la, lb))
        else:
            self.log = base
        self._fresh_floor = h0
        for k, ca, cb in todo:
            heap[k] = self.merge_cell(cond, ca, cb)
        r = self.join(cond, va, vb, h0)
        return r

    def merge_cell(self, cond, a, b):
        if type(a) is not type(b):
            return UnkCell("join of different cells")
        k = a.kind
        if k == "arr":
            if a.shape == b.shape and a.mask is b.mask:
                return Arr(a.shape, tm.ite(cond, a.elem, b.elem), a.dtype if a.dtype == b.dtype else None, a.mask)
            return UnkCell("join of arrays of different shape")
        if k == "env":
            v = {}
            for n in list(a.vars) + [x for x in b.vars if x not in a.vars]:
                x, y = a.vars.get(n, UNBOUND), b.vars.get(n, UNBOUND)
                v[n] = x if x is y else self.join(cond, x, y)
            return Env(v, a.parent)
        if k == "obj":
            if a.cls is not b.cls:
                return UnkCell("join of objects")
            v = {}
            for n in list(a.fields) + [x for x in b.fields if x not in a.fields]:
                x, y = a.fields.get(n, UNBOUND), b.fields.get(n, UNBOUND)
                v[n] = x if x is y else self.join(cond, x, y)
            return Obj(a.cls, v)
        if k == "list":
            if len(a.items) == len(b.items):
                return Lst([x if x is y else self.join(cond, x, y) for x, y in zip(a.items, b.items)])
            return UnkCell("join of lists of different length")
        if k == "dict":
            if [x for x, _ in a.items] == [x for x, _ in b.items]:
                return Dct([(x, v if v is w else self.join(cond, v, w)) for (x, v), (_, w) in zip(a.items, b.items)])
            return UnkCell("join of dicts with different keys")
        if k == "symlist":
            if a.length is b.length and a.var is b.var:
                return SymLst(a.length, a.var, self.join(cond, a.value, b.value))
            return UnkCell("join of symbolic lists")
        if k == "ext":
            return a if a.data == b.data else UnkCell("join of external objects")
        return UnkCell("join")

    def join(self, cond, a, b, h0=None):
        if a is b:
            return a
        if isinstance(a, T) and isinstance(b, T):
            ka, kb = self.kind(a), self.kind(b)
            num = ("int", "float", "bool", "npnum", "any")
            if ka in num and kb in num:
                return tm.ite(cond, a, b)
            if ka == kb == "str":
                return tm.ite(cond, a, b)
            return Phi(cond, a, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return a
            if h0 is not None and a.id not in h0 and b.id not in h0:
                ca, cb = self.heap.get(a.id), self.heap.get(b.id)
                if ca is not None and cb is not None and type(ca) is type(cb) and ca.kind == "arr" and ca.shape == cb.shape \
                        and ca.mask is cb.mask:
                    return self.alloc(self.merge_cell(cond, ca, cb))
            return Phi(cond, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.join(cond, x, y, h0) for x, y in zip(a.items, b.items)])
        if type(a) is type(b):
            try:
                if a == b:
                    return a
            except Exception:
                pass
        return Phi(cond, a, b)

    def merge_entries(self, base, parts):
        """parts: list of (snap, value); merge all into the current state, returns value. base: snapshot before"""
        snap, val = parts[-1]
        self.restore(snap)
        n = len(base[2])
        for s, v in reversed(parts[:-1]):
            cur = self.snapshot()
            cond = tm.and_(*s[2][n:])
            if cond is TRUE:
                self.restore(s)
                val = v
                continue
            b = (base[0], base[1], base[2], base[3], base[4])
            val = self.merge2(cond, b, s, cur, v, val)
        return val

    def scope(self, f):
        self.sinks.append([])
        val, alive = None, False
        try:
            val = f()
            alive = True
        except DeadX:
            pass
        except Exit as e:
            self.sinks[-1].append(Entry(e, self.snapshot()))
        return val, alive, self.sinks.pop()

    # resolve Phi under current facts
    def res(self, v):
        while isinstance(v, Phi):
            d = self.decide(v.cond)
            if d is True:
                v = v.a
            elif d is False:
                v = v.b
            elif v.a is UNBOUND:
                v = v.b
            elif v.b is UNBOUND:
                v = v.a
            else:
                break
        return v

    def lift(self, vals, f):
        """apply f to values, splitting on the first unresolved Phi"""
        vals = [self.res(v) for v in vals]
        for i, v in enumerate(vals):
            if isinstance(v, Phi):
                def alt(x, i=i):
                    return self.lift(vals[:i] + [x] + vals[i + 1:], f)
                return self.branch(v.cond, lambda: alt(v.a), lambda: alt(v.b))
        return f(*vals)

    def raise_(self, name, msg=""):
        raise RaiseX(Exc(Ext(name), (msg,), self.loc))

    def maybe_raise(self, cond, name, msg=""):
        """exit with an exception when cond may hold; continue otherwise"""
        d = self.decide(cond)
        if d is False:
            return
        if d is True:
            self.raise_(name, msg)
        self.branch(cond, lambda: self.raise_(name, msg), lambda: NONE)

    # ------------------------------------------------------------ modules
    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        rel = name.replace(".", "/")
        p1 = os.path.join(self.root, rel + ".py")
        p2 = os.path.join(self.root, rel, "__init__.py")
        path = p2 if os.path.exists(p2) else p1
        if not os.path.exists(path):
            raise AnalysisError("module %s not found" % name)
        return self.load_source(name, path, open(path).read())

    def load_source(self, name, path, src):
        m = Mod(name, path)
        self.mods[name] = m
        tree = ast.parse(src, path)
        self.sources[path] = src
        m.loading = True
        m.env = self.alloc(Env({"__name__": const(name)}, None))
        self.exec_module(m, tree)
        m.loading = False
        return m

    def exec_module(self, m, tree):
        saved_sink = self.sinks
        self.sinks = [[]]
        self.frames.append(dict(qual=m.name, module=m, env=m.env, cls=None, fn=None))
        saved = self.loc
        saved_facts, saved_pc, saved_eqs = self.facts, self.pc, self.eqs
        try:
            try:
                for st in tree.body:
                    self.exec(st)
            except RaiseX as e:
                raise AnalysisError("module %s raises %s during import (%s)" % (m.name, e.exc.name, e.exc.loc))
        finally:
            self.frames.pop()
            self.loc = saved
            self.sinks = saved_sink

    def is_repo(self, name):
        return name.split(".")[0] in self.packages or name in self.mods

    def import_name(self, name):
        """bind value for `import a.b.c` -> top-level"""
        if self.is_repo(name):
            return self.load(name)
        return Ext("mod:" + name)

    def mod_attr(self, m, attr):
        env = self.heap[m.env.id]
        if attr in env.vars:
            return env.vars[attr]
        if self.is_repo(m.name):
            try:
                return self.load(m.name + "." + attr)
            except AnalysisError:
                pass
        return None

    # ------------------------------------------------------------ names
    def lookup(self, name):
        env = self.frames[-1]["env"]
        while env is not None:
            c = self.heap[env.id]
            if name in c.vars:
                v = self.res(c.vars[name])
                if v is not UNBOUND:
                    return v
            env = c.parent
        return self.builtin(name)

    def builtin(self, name):
        if name in self.np.BUILTINS:
            return Ext(name)
        if name.startswith("__") and name.endswith("__") and name[2:-2] in self.np.INTRINSICS:
            return Ext("intrinsic." + name[2:-2])
        if name == "__name__":
            return const(self.frames[-1]["module"].name)
        if hasattr(builtins, name):
            return Ext(name)
        raise RaiseX(Exc(Ext("NameError"), (name,), self.loc))

    def assign_name(self, name, v):
        fr = self.frames[-1]
        env = fr["env"]
        if name in fr.get("nonlocal", ()):
            e = self.heap[env.id].parent
            while e is not None:
                if name in self.heap[e.id].vars:
                    env = e
                    break
                e = self.heap[e.id].parent
        c = self.heap[env.id]
        vs = dict(c.vars)
        vs[name] = v
        self.heap[env.id] = Env(vs, c.parent)

    def mangle(self, attr):
        if attr.startswith("__") and not attr.endswith("__"):
            cls = self.frames[-1].get("cls")
            if cls:
                return "_" + cls.lstrip("_") + attr
        return attr

    # ------------------------------------------------------------ statements
    def exec_block(self, body):
        for st in body:
            self.exec(st)

    def exec(self, st):
        self.setloc(st)
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            self.unk("stmt:" + type(st).__name__)
            return
        m(st)

    def setloc(self, node):
        fr = self.frames[-1] if self.frames else None
        path = fr["module"].path if fr else "?"
        inrepo = path.startswith(self.root)
        self.loc = (os.path.relpath(path, self.root) if inrepo else path, getattr(node, "lineno", 0))
        if fr:
            fr["loc"] = self.loc if inrepo else None
        if inrepo:
            tm.set_loc(self.loc)
        else:
            l = None
            for f in reversed(self.frames):
                if f.get("loc"):
                    l = f["loc"]
                    break
            tm.set_loc(l or self.loc)

    def x_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value)

    def x_Pass(self, st):
        pass

    def x_Import(self, st):
        for a in st.names:
            v = self.import_name(a.name)
            if a.asname:
                self.assign_name(a.asname, v)
            else:
                top = a.name.split(".")[0]
                self.assign_name(top, self.import_name(top) if top != a.name else v)

    def x_ImportFrom(self, st):
        fr = self.frames[-1]
        name = st.module or ""
        if st.level:
            base = fr["module"].name.split(".")
            if not fr["module"].path.endswith("__init__.py"):
                base = base[:-1]
            base = base[:len(base) - (st.level - 1)]
            name = ".".join(base + ([st.module] if st.module else []))
        for a in st.names:
            if self.is_repo(name):
                m = self.load(name)
                if a.name == "*":
                    for k, v in self.heap[m.env.id].vars.items():
                        if not k.startswith("_"):
                            self.assign_name(k, v)
                    continue
                v = self.mod_attr(m, a.name)
                if v is None:
                    raise RaiseX(Exc(Ext("ImportError"), (a.name,), self.loc))
            else:
                if name in ("__future__", "typing", "abc"):
                    pass
                v = Ext(name + "." + a.name)
                v = self.np.normalise_ext(v)
            self.assign_name(a.asname or a.name, v)

    def x_FunctionDef(self, st):
        fn = self.make_fn(st)
        v = fn
        for d in reversed(st.decorator_list):
            v = self.decorate(d, v)
        self.assign_name(st.name, v)

    def decorate(self, d, v):
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter") and isinstance(d.value, ast.Name):
            cur = self.lookup(d.value.id)
            if isinstance(cur, Prop):
                if d.attr == "setter":
                    return Prop(cur.fget, v, cur.flags)
                return cur
        dv = self.ev(d)
        if isinstance(dv, Ext):
            n = dv.name
            if n == "property":
                return Prop(v, None, getattr(v, "flags", ()))
            if n in ("abc.abstractmethod",):
                if isinstance(v, Prop):
                    return Prop(v.fget, v.fset, v.flags | {"abstract"})
                if isinstance(v, Fn):
                    v.flags.add("abstract")
                return v
            if n in ("staticmethod", "classmethod"):
                return Wrapped(n, v)
            if n in ("functools.wraps", "typing.overload", "functools.lru_cache", "functools.cache"):
                return v
        try:
            return self.call(dv, [v], {})
        except Exit:
            raise
    x_AsyncFunctionDef = x_FunctionDef

    def make_fn(self, node, name=None):
        fr = self.frames[-1]
        a = node.args
        defaults = [self.ev(x) for x in a.defaults]
        for d, x in zip(defaults, a.defaults):
            self.mark_default(d, fr, node)
        kwd = [None if x is None else self.ev(x) for x in a.kw_defaults]
        nm = name or getattr(node, "name", "<lambda>")
        qual = fr["qual"] + "." + nm
        env = fr["env"]
        if fr.get("classbody"):
            env = fr["outer_env"]
        f = Fn(node, fr["module"], env, fr.get("cls"), defaults, kwd, nm, qual)
        if fr.get("fn") is None:
            self.static_env(f)
        return f

    def static_env(self, o):
        """attributes stored on a class or function after its definition"""
        self.statics[id(o)] = (o, self.alloc(Env({}, None)))

    def static_get(self, o, name):
        r = self.statics.get(id(o))
        if r is None or r[1].id not in self.heap:
            return UNBOUND
        return self.res(self.heap[r[1].id].vars.get(name, UNBOUND))

    def static_set(self, o, name, v):
        r = self.statics.get(id(o))
        if r is None or r[1].id not in self.heap:
            return False
        c = self.heap[r[1].id]
        vs = dict(c.vars)
        vs[name] = v
        self.heap[r[1].id] = Env(vs, None)
        return True

    def cls_lookup(self, c, name):
        """attribute of a class along its bases, as it is now"""
        for k in c.mro:
            if isinstance(k, Cls):
                v = self.static_get(k, name)
                if v is not UNBOUND:
                    return v, k
                if name in k.ns:
                    return k.ns[name], k
        return None, None

    def mark_default(self, d, fr, node):
        for r in self.reach(d):
            self.meta.setdefault(r.id, {}).setdefault("default", "%s.%s" % (fr["qual"], getattr(node, "name", "<lambda>")))

    def x_ClassDef(self, st):
        fr = self.frames[-1]
        bases = [self.ev(b) for b in st.bases]
        bases = [b for b in bases if isinstance(b, (Cls, Ext))]
        if not bases:
            bases = [Ext("object")]
        env = self.alloc(Env({}, fr["env"]))
        self.frames.append(dict(qual=fr["qual"] + "." + st.name, module=fr["module"], env=env, cls=st.name, fn=None,
                                classbody=True, outer_env=fr["env"]))
        try:
            self.exec_block(st.body)
        finally:
            self.frames.pop()
        ns = {("_" + st.name.lstrip("_") + k if k.startswith("__") and not k.endswith("__") else k): v
              for k, v in self.heap[env.id].vars.items()}
        c = Cls(st.name, tuple(bases), ns, fr["module"], st, fr["qual"] + "." + st.name)
        self.static_env(c)
        v = c
        for d in reversed(st.decorator_list):
            v = self.decorate(d, v)
        self.assign_name(st.name, v)

    def x_Return(self, st):
        raise ReturnX(NONE if st.value is None else self.ev(st.value))

    def x_Raise(self, st):
        if st.exc is None:
            e = self.frames[-1].get("handling")
            if e is not None:
                raise RaiseX(e)
            self.raise_("RuntimeError")
        v = self.ev(st.exc)
        loc = self.loc
        self.setloc(st)

        def go(v):
            if isinstance(v, Exc):
                raise RaiseX(Exc(v.cls, v.args, self.loc))
            if isinstance(v, (Ext, Cls)):
                raise RaiseX(Exc(v, (), self.loc))
            raise RaiseX(Exc(Ext("Exception"), (), self.loc))
        self.lift([v], go)

    def x_Assert(self, st):
        c = self.truth(self.ev(st.test))
        self.maybe_raise(tm.not_(c), "AssertionError")

    def x_Global(self, st):
        pass

    def x_Nonlocal(self, st):
        self.frames[-1].setdefault("nonlocal", set()).update(st.names)

    def x_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                c = self.heap[self.frames[-1]["env"].id]
                vs = dict(c.vars)
                vs.pop(t.id, None)
                self.heap[self.frames[-1]["env"].id] = Env(vs, c.parent)
            elif isinstance(t, ast.Subscript):
                o, k = self.ev(t.value), self.ev(t.slice)
                self.np.delitem(self, o, k)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                n = self.mangle(t.attr)
                if isinstance(o, Ref) and self.cell(o).kind == "obj":
                    c = self.cell(o)
                    f = dict(c.fields)
                    f.pop(n, None)
                    self.setcell(o, Obj(c.cls, f))

    def x_Assign(self, st):
        v = self.ev(st.value)
        self.setloc(st)
        for t in st.targets:
            self.assign(t, v)

    def x_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                items = self.known_items(v)
                if items is None:
                    for e in t.elts:
                        self.assign(e.value if isinstance(e, ast.Starred) else e, self.unk("starred assign"))
                    return
                i = star[0]
                k = len(items) - (n - 1)
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x)
                self.assign(t.elts[i].value, self.alloc(Lst(items[i:i + k])))
                for e, x in zip(t.elts[i + 1:], items[i + k:]):
                    self.assign(e, x)
                return
            items = self.unpack(v, n)
            for e, x in zip(t.elts, items):
                self.assign(e, x)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            self.setloc(t)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev(t.slice)
            self.setloc(t)
            self.lift([o, k], lambda o, k: self.np.setitem(self, o, k, v))
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            self.unk("assign target " + type(t).__name__)

    def unpack(self, v, n):
        v = self.res(v)
        if isinstance(v, Phi):
            a = None
            r = self.lift([v], lambda x: Tup(self.unpack(x, n)))
            r = self.res(r)
            if isinstance(r, Tup):
                return list(r.items)
            return [self.np.getitem(self, r, const(i)) for i in range(n)]
        it = self.iterate(v)
        if it[0] == "known":
            if len(it[1]) != n:
                self.raise_("ValueError", "unpack")
            return it[1]
        if it[0] == "sym":
            self.maybe_raise(tm.not_(tm.eq(it[1], const(n))), "ValueError", "unpack")
            return [it[2](const(i)) for i in range(n)]
        return [self.unk("unpack") for _ in range(n)]

    def x_AugAssign(self, st):
        t = st.target
        op = type(st.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            v = self.ev(st.value)
            self.setloc(st)
            self.assign_name(t.id, self.augop(op, cur, v))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr(o, t.attr)
            v = self.ev(st.value)
            self.setloc(st)
            self.setattr(o, t.attr, self.augop(op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev(t.slice)
            cur = self.lift([o, k], lambda o, k: self.np.getitem(self, o, k))
            v = self.ev(st.value)
            self.setloc(st)
            r = self.augop(op, cur, v)
            self.lift([o, k], lambda o, k: self.np.setitem(self, o, k, r))
        else:
            self.unk("augassign")

    def augop(self, op, cur, v):
        def go(cur, v):
            if isinstance(cur, Ref):
                c = self.cell(cur)
                if c.kind in ("arr", "view"):
                    r = self.np.binop(self, op, cur, v)
                    self.np.store_all(self, cur, r)
                    return cur
                if c.kind == "list" and op == "Add":
                    items = self.known_items(v)
                    if items is not None:
                        self.emit("write", ref=cur.id)
                        self.setcell(cur, Lst(c.items + tuple(items)))
                        return cur
            return self.np.binop(self, op, cur, v)
        return self.lift([cur, v], go)

    def x_If(self, st):
        c = self.cond(st.test)
        self.branch(c, lambda: self.exec_block(st.body), lambda: self.exec_block(st.orelse))

    def x_With(self, st):
        for it in st.items:
            v = self.ev(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        self.exec_block(st.body)

    def x_Try(self, st):
        base = self.snapshot()
        _, alive, entries = self.scope(lambda: self.exec_block(st.body))
        parts = []
        if alive:
            cur = self.snapshot()
            if st.orelse:
                _, alive, es = self.scope(lambda: self.exec_block(st.orelse))
                for e in es:
                    self.sinks[-1].append(e)
                cur = self.snapshot() if alive else None
            if cur is not None:
                parts.append((cur, NONE))
        rest = []
        for e in entries:
            handled = False
            if isinstance(e.exit, RaiseX):
                for h in st.handlers:
                    self.restore(e.snap)
                    if self.handles(h, e.exit.exc):
                        handled = True

                        def run(h=h, e=e):
                            if h.name:
                                self.assign_name(h.name, e.exit.exc)
                            old = self.frames[-1].get("handling")
                            self.frames[-1]["handling"] = e.exit.exc
                            try:
                                self.exec_block(h.body)
                            finally:
                                self.frames[-1]["handling"] = old
                        _, al, es = self.scope(run)
                        rest.extend(es)
                        if al:
                            parts.append((self.snapshot(), NONE))
                        break
            if not handled:
                rest.append(e)
        if st.finalbody:
            nr = []
            for e in rest:
                self.restore(e.snap)
                _, al, es = self.scope(lambda: self.exec_block(st.finalbody))
                nr.extend(es)
                if al:
                    nr.append(Entry(e.exit, self.snapshot()))
            rest = nr
        self.sinks[-1].extend(rest)
        if not parts:
            raise DeadX()
        self.merge_entries(base, parts)
        if st.finalbody:
            self.exec_block(st.finalbody)

    def handles(self, h, exc):
        if h.type is None:
            return True
        v = self.ev(h.type)
        cands = list(v.items) if isinstance(v, Tup) else [v]
        for c in cands:
            if self.exc_is(exc, c):
                return True
        return False

    def exc_is(self, exc, c):
        if isinstance(exc.cls, Cls):
            if isinstance(c, Cls):
                return exc.cls.is_sub(c)
            return any(isinstance(b, Ext) and self.np.exc_sub(b.name, c.name) for b in exc.cls.mro)
        if isinstance(c, Ext):
            return self.np.exc_sub(exc.cls.name, c.name)
        return False

    def x_For(self, st):
        it = self.ev(st.iter)
        self.lift([it], lambda v: self.for_over(st, v))

    def for_over(self, st, v):
        it = self.iterate(v)
        if it[0] == "known":
            self.loop_known(st, it[1])
        elif it[0] == "guarded":
            self.loop_known(st, [x for c, x in it[1]], [c for c, x in it[1]])
        elif it[0] == "sym":
            n = it[1]
            k = tm.num(n)
            if k is not None and k.denominator == 1 and k <= 64:
                self.loop_known(st, [it[2](const(i)) for i in range(int(k))])
            else:
                self.loop_sym(st, n, it[2])
        else:
            self.loop_unknown(st)

    def loop_known(self, st, items, guards=None):
        base0 = self.snapshot()
        breaks = []
        alive = True
        for num, it in enumerate(items):
            base = self.snapshot()

            def body(it=it, num=num):
                def once():
                    self.assign(st.target, it)
                    self.exec_block(st.body)
                    return NONE
                if guards is None:
                    once()
                else:
                    self.branch(guards[num], once, lambda: NONE)
            _, al, entries = self.scope(body)
            parts = [(self.snapshot(), NONE)] if al else []
            for e in entries:
                if isinstance(e.exit, ContinueX):
                    parts.append((e.snap, NONE))
                elif isinstance(e.exit, BreakX):
                    breaks.append((e.snap, NONE))
                else:
                    self.sinks[-1].append(e)
            if not parts:
                alive = False
                break
            self.merge_entries(base, parts)
        if alive and st.orelse:
            _, alive, es = self.scope(lambda: self.exec_block(st.orelse))
            self.sinks[-1].extend(es)
        parts = breaks + ([(self.snapshot(), NONE)] if alive else [])
        if not parts:
            raise DeadX()
        self.merge_entries(base0, parts)

    # -------- symbolic loops
    def diff_state(self, h0, h1):
        """modified pre-existing cells: {id: set of names | None}"""
        mod = {}
        for k, c0 in h0.items():
            c1 = h1.get(k)
            if c1 is c0 or c1 is None:
                continue
            if c0.kind == "env" and c1.kind == "env":
                names = {n for n in set(c0.vars) | set(c1.vars) if c0.vars.get(n, UNBOUND) is not c1.vars.get(n, UNBOUND)}
                if names:
                    mod[k] = names
            elif c0.kind == "obj" and c1.kind == "obj":
                names = {n for n in set(c0.fields) | set(c1.fields) if
                         c0.fields.get(n, UNBOUND) is not c1.fields.get(n, UNBOUND)}
                if names:
                    mod[k] = names
            elif c0.kind == "arr" and c1.kind == "arr" and c0.elem is c1.elem and c0.shape == c1.shape:
                continue
            else:
                mod[k] = None
        return mod

    def havoc(self, mod, uid, small=None):
        self.smallarr = small
        for k, names in mod.items():
            c = self.heap[k]
            if c.kind == "env":
                vs = dict(c.vars)
                for n in names:
                    vs[n] = self.havoc_val(vs.get(n, UNBOUND), uid, k, n)
                self.heap[k] = Env(vs, c.parent)
            elif c.kind == "obj":
                vs = dict(c.fields)
                for n in names:
                    vs[n] = self.havoc_val(vs.get(n, UNBOUND), uid, k, n)
                self.heap[k] = Obj(c.cls, vs)
            elif c.kind == "arr":
                b = mk("lpre", uid, k, "")
                self.heap[k] = Arr(c.shape, tm.sel(b, *IX[:len(c.shape)]), c.dtype, c.mask)
            elif c.kind == "list":
                self.heap[k] = Lst((mk("lmark", uid, k),))
            else:
                self.heap[k] = UnkCell("modified in loop")

    def havoc_val(self, v, uid, k, n):
        if v is UNBOUND:
            return UNBOUND
        if isinstance(v, T):
            kd = self.kind(v)
            return mk("lpre", uid, k, n, kd if kd in ("int", "float", "bool") else "any")
        if self.smallarr is not None and (k, n) not in self.smallarr["bad"] and isinstance(v, Ref) and v.id in self.heap:
            c = self.heap[v.id]
            if c.kind in ("arr", "view"):
                sh, e, d, m = self.np.as_array(self, v)
                if sh and m is None and all(tm.num(x) is not None for x in sh):
                    r = self.alloc(Arr(sh, tm.sel(mk("lpre", uid, k, n, "arr"), *IX[:len(sh)]), d))
                    self.smallarr["refs"][(k, n)] = (r, tuple(sh))
                    return r
        return mk("lpre", uid, k, n, "any")

    def small_broken(self, small, start, parts):
        """array variables assumed to keep their (small, known) shape that do not, or whose cell is written in the loop"""
        bad = set()
        for (k, n), (r, shp) in small["refs"].items():
            for p in parts:
                c = p[0].get(k)
                v = None
                if c is not None and c.kind in ("env", "obj"):
                    v = (c.vars if c.kind == "env" else c.fields).get(n)
                ok = False
                if p[0].get(r.id) is start[0].get(r.id) and isinstance(v, Ref) and v.id in p[0] and p[0][v.id].kind in ("arr", "view"):
                    a = p[0][v.id]
                    ok = getattr(a, "mask", None) is None and tuple(a.shape) == shp
                if not ok:
                    bad.add((k, n))
        return bad

    def loop_sym(self, st, n, get):
        s0 = self.snapshot()
        dn = self.decide(tm.pos(n))
        if dn is False:
            self.exec_block(st.orelse)
            return
        uid = self.counter = self.counter + 1
        lv = mk("lv", uid)
        self.lvlen[lv] = n
        mod = {}

        def body():
            self.assign(st.target, get(lv))
            self.exec_block(st.body)
        for rnd in range(5):
            self.restore(s0)
            self.havoc(mod, uid)
            sh = self.snapshot()
            self.log = None
            self._addfact(tm.lt(lv, n))
            if self.decide(tm.le(ZERO, lv)) is None:
                self._addfact(tm.le(ZERO, lv))
            sb = self.snapshot()
            _, al, entries = self.scope(body)
            parts = [(self.snapshot(), NONE)] if al else []
            brk = []
            for e in entries:
                if isinstance(e.exit, ContinueX):
                    parts.append((e.snap, NONE))
                elif isinstance(e.exit, BreakX):
                    brk.append(e)
            allparts = parts + [(e.snap, NONE) for e in brk]
            if not allparts:
                break
            self.merge_entries(sb, allparts)
            s1 = self.snapshot()
            m2 = self.diff_state(sh[0], s1[0])
            new = {}
            for k, names in m2.items():
                if k not in s0[0]:
                    continue
                if k not in mod:
                    new[k] = names
                elif names is not None and mod[k] is not None and not names <= mod[k]:
                    new[k] = names | mod[k]
            if not new:
                break
            mod.update(new)
        if not allparts:
            # the body always leaves the loop (return/raise/…)
            for e in entries:
                if not isinstance(e.exit, (ContinueX, BreakX)):
                    self.sinks[-1].append(Entry(e.exit, e.snap))
            self.restore(s0)
            if dn is True:
                raise DeadX()
            return
        for e in entries:
            if not isinstance(e.exit, (ContinueX, BreakX)):
                self.sinks[-1].append(e)
        sub = self.events(s1[3], None)
        hasbreak = bool(brk) or any(isinstance(e.exit, ReturnX) for e in entries)
        self.restore(s0)
        if sub:
            self.log = (self.log, ("loop", lv, n, sub))
        h1 = s1[0]
        # cells allocated in the loop body may be referenced afterwards
        for k, c in h1.items():
            if k not in self.heap:
                self.heap[k] = c
        last = {lv: tm.sub(n, ONE)}
        for k, names in mod.items():
            c0, c1 = s0[0][k], h1[k]
            if c0.kind in ("env", "obj") and c1.kind == c0.kind:
                v0 = c0.vars if c0.kind == "env" else c0.fields
                v1 = c1.vars if c0.kind == "env" else c1.fields
                vs = dict(v0)
                for nm in names:
                    pre = mk("lpre", uid, k, nm, "any")
                    vs[nm] = self.loop_var(v0.get(nm, UNBOUND), v1.get(nm, UNBOUND), uid, k, nm, lv, n, hasbreak)
                self.heap[k] = Env(vs, c0.parent) if c0.kind == "env" else Obj(c0.cls, vs)
            elif c0.kind == "arr" and c1.kind == "arr" and c0.shape == c1.shape:
                self.heap[k] = Arr(c0.shape, self.loop_arr(c0, c1, uid, k, lv, n, hasbreak), c0.dtype, c0.mask)
            elif c0.kind == "list" and c1.kind == "list":
                it = c1.items
                if it and isinstance(it[0], T) and it[0].op == "lmark" and len(it) == 2 and not c0.items and not hasbreak:
                    self.heap[k] = SymLst(n, lv, it[1])
                elif it and isinstance(it[0], T) and it[0].op == "lmark" and len(it) == 1:
                    self.heap[k] = c0
                else:
                    self.heap[k] = UnkCell("list modified in symbolic loop")
                    self.unk("list modified in symbolic loop")
            else:
                self.heap[k] = UnkCell("modified in symbolic loop")
                self.unk("cell modified in symbolic loop")
        # target variable
        if st.orelse:
            self.exec_block(st.orelse)

    def loop_var(self, v0, v1, uid, k, nm, lv, n, hasbreak):
        if not isinstance(v1, T):
            if v1 is UNBOUND:
                return UNBOUND
            if self.mentions_loop(v1, uid, lv):
                return self.unk("loop-carried value " + str(nm))
            return v1
        pres = [x for x in tm.walk(v1) if x.op == "lpre" and x.args[0] == uid]
        own = [x for x in pres if x.args[1] == k and x.args[2] == nm]
        if not pres and not hasbreak:
            r = tm.subst(v1, {lv: tm.sub(n, ONE)})
            if v0 is UNBOUND or not isinstance(v0, T) or self.decide(tm.pos(n)):
                return r
            return tm.ite(tm.pos(n), r, v0)
        if len(own) == 1 and len(pres) == 1 and isinstance(v0, T) and not hasbreak:
            d = tm.sub(v1, own[0])
            if own[0] not in tm.walk(d):
                if lv not in tm.walk(d):
                    return tm.add(v0, tm.mul(d, n))
                return tm.add(v0, tm.reduce_term("sum", n, tm.subst(self.shift_ix(d, 1), {lv: IX[0]}), 0, 1))
        r = mk("mu", uid, k, nm)
        self.loopphi[r] = (v0, v1, lv)
        self.unsup["loop-carried scalar"] = self.unsup.get("loop-carried scalar", 0) + 1
        return r

    def shift_ix(self, t, by):
        mp = {IX[i]: IX[i + by] for i in range(len(IX) - by)}
        return tm.subst(t, mp)

    def mentions_loop(self, v, uid, lv):
        return False

    def loop_arr(self, c0, c1, uid, k, lv, n, hasbreak):
        nd = len(c0.shape)
        pre = mk("lpre", uid, k, "")
        old = tm.sel(pre, *IX[:nd])
        e1 = c1.elem
        if e1 is old:
            return c0.elem
        others = [x for x in tm.walk(e1) if x.op == "lpre" and x.args[0] == uid and x is not pre]
        stores = self.split_store(e1, old, lv)
        if stores is not None and not others and not hasbreak:
            cond, axis_expr, val = stores
            # solve the index equation for lv
            sol = axis_expr
            ok = True
            for x in tm.walk(val):
                if x.op == "sel" and x.args[0] is pre:
                    # reads of the array itself must be of the element being written
                    if tuple(x.args[1:]) != tuple(IX[:nd]):
                        ok = False
            if pre in tm.walk(cond):
                ok = False
            if ok:
                mp = {lv: sol}
                c = tm.subst(cond, mp)
                v = tm.subst(val, mp)
                inr = tm.and_(tm.le(ZERO, sol), tm.lt(sol, n))
                inr = self.simp_ix(inr, c0.shape)
                c = self.simp_ix(c, c0.shape)
                full = tm.and_(c, inr)
                v = tm.subst(v, {pre: mk("PRE", 0)})
                e0 = c0.elem
                v = self._subst_pre(v, mk("PRE", 0), e0, nd)
                return tm.ite(full, v, e0)
        # weak update: element is the old one or any stored value with loop variables solved where possible
        alts = self.weak_alts(e1, old, lv, n)
        if alts is not None and not others:
            alts = [a for a in alts if not any(x is pre for x in tm.walk(a))]
            return mk("anyof", c0.elem, *sorted(set(alts), key=tm.order_key))
        self.unsup["array modified in symbolic loop"] = self.unsup.get("array modified in symbolic loop", 0) + 1
        r = mk("mu", uid, k, "")
        self.loopphi[r] = (c0.elem, e1, lv)
        return tm.sel(r, *IX[:nd])

    def _subst_pre(self, v, pre, e0, nd):
        mp = {}
        for x in tm.walk(v):
            if x.op == "sel" and x.args[0] is pre:
                mp[x] = e0
        return tm.subst(v, mp) if mp else v

    def simp_ix(self, c, shape):
        """decide index-range conditions knowing IX[k] < shape[k]"""
        saved = dict(self.lvlen)
        for k, d in enumerate(shape):
            self.lvlen[IX[k]] = d
        try:
            return self.simp(c)
        finally:
            self.lvlen = saved

    def split_store(self, e, old, lv):
        """e == ite(c & (IXk == f(lv)), V, old)  ->  (residual cond, solution for lv, V)"""
        if e.op != "ite":
            return None
        c, a, b = e.args
        if b is old:
            val, cond = a, c
        elif a is old:
            val, cond = b, tm.not_(c)
        else:
            # nested: ite(c1, V1, ite(c2, V2, old)) with the same index equation in both
            if b.op == "ite":
                inner = self.split_store(b, old, lv)
                if inner is not None:
                    cj = list(c.args) if c.op == "and" else [c]
                    for x in cj:
                        s = self.solve_eq(x, lv)
                        if s is inner[1]:
                            res = [y for y in cj if y is not x]
                            c1 = tm.and_(*res)
                            return tm.or_(c1, inner[0]), s, tm.ite(c1, a, inner[2])
                    # condition without own index equation: ite(c, ite(eq, V..), ..) handled below
            sa, sb = self.split_any(a, old, lv), self.split_any(b, old, lv)
            if sa is not None and sb is not None and sa[1] is sb[1]:
                return tm.ite(c, sa[0], sb[0]), sa[1], tm.ite(c, sa[2], sb[2])
            return None
        cj = list(cond.args) if cond.op == "and" else [cond]
        for x in cj:
            s = self.solve_eq(x, lv)
            if s is not None:
                res = [y for y in cj if y is not x]
                return tm.and_(*res), s, val
        inner = self.split_store(val, old, lv) if val.op == "ite" else None
        if inner is not None:
            return tm.and_(cond, inner[0]), inner[1], inner[2]
        return None

    def split_any(self, e, old, lv):
        return self.split_store(e, old, lv)

    def solve_eq(self, c, lv):
        """c: eq0(poly) linear in lv with an index variable -> solution term"""
        if c.op != "eq0":
            return None
        d = tm.to_dict(c.args[0])
        k = d.get(((lv, ONE),))
        if k is None:
            return None
        rest = tm._poly({m: -x / k for m, x in d.items() if m != ((lv, ONE),)})
        if lv in tm.walk(rest):
            return None
        if not any(x.op == "ix" for x in tm.walk(rest)):
            return None
        return rest

    def weak_alts(self, e, old, lv, n):
        out = []
        st = [(e, ())]
        while st:
            t, conds = st.pop()
            if t.op == "ite":
                st.append((t.args[1], conds + (t.args[0],)))
                st.append((t.args[2], conds))
                continue
            if t is old:
                continue
            if t.op == "anyof":
                for a in t.args:
                    st.append((a, conds))
                continue
            sol = None
            cj = []
            for c in conds:
                cj.extend(c.args if c.op == "and" else [c])
            mp = {}
            for c in cj:
                s = self.solve_eq(c, lv)
                if s is not None:
                    mp = {lv: s}
                    break
            if not mp and lv in tm.walk(t):
                ex = mk("ex", lv)
                mp = {lv: ex}
            r = tm.subst(t, mp) if mp else t
            out.append(r)
            if len(out) > 40:
                return None
        return out

    def loop_unknown(self, st):
        self.loop_while_like(st, None, target=st.target)

    def x_While(self, st):
        if not self.loop_unrolled(st):
            self.loop_while_like(st, st.test)

    def loop_unrolled(self, st, limit=64):
        """iterate as long as the loop condition is known; False (nothing done) when it is not"""
        s0 = self.snapshot()
        counter = self.counter
        breaks, leaving = [], []
        state = {}

        def fail():
            self.restore(s0)
            return False
        for num in range(limit + 1):
            base = self.snapshot()

            def body():
                d = self.decide(self.cond(st.test))
                state["d"] = d
                if d is not True:
                    return
                self.exec_block(st.body)
            state.pop("d", None)
            _, al, entries = self.scope(body)
            d = state.get("d", True)
            if d is None or num == limit:
                return fail()
            if d is False:
                alive = al
                leaving += entries
                break
            parts = [(self.snapshot(), NONE)] if al else []
            nb = 0
            for e in entries:
                if isinstance(e.exit, ContinueX):
                    parts.append((e.snap, NONE))
                elif isinstance(e.exit, BreakX):
                    breaks.append((e.snap, NONE))
                    nb += 1
                else:
                    leaving.append(e)
            if not parts:
                alive = False
                break
            self.merge_entries(base, parts)
            if len(breaks) > 4 and isinstance(st.test, ast.Constant):
                return fail()
        self.sinks[-1].extend(leaving)
        if alive and st.orelse:
            _, alive, es = self.scope(lambda: self.exec_block(st.orelse))
            self.sinks[-1].extend(es)
        parts = breaks + ([(self.snapshot(), NONE)] if alive else [])
        if not parts:
            raise DeadX()
        self.merge_entries(s0, parts)
        return True

    def loop_while_like(self, st, test, target=None):
        s0 = self.snapshot()
        uid = self.counter = self.counter + 1
        mod = {}
        small = {"bad": set(), "refs": {}}
        for rnd in range(8):
            self.restore(s0)
            small["refs"] = {}
            self.havoc(mod, uid, small)
            self.smallarr = None
            sh = self.snapshot()
            self.log = None
            sb = self.snapshot()

            def body():
                if target is not None:
                    self.assign(target, self.unk("loop item"))
                else:
                    c = self.cond(test)
                    d = self.decide(c)
                    if d is False:
                        raise BreakX()
                    if d is None:
                        self.branch(c, lambda: NONE, lambda: self._brk())
                self.exec_block(st.body)
            _, al, entries = self.scope(body)
            parts = [(self.snapshot(), NONE)] if al else []
            brk = []
            for e in entries:
                if isinstance(e.exit, ContinueX):
                    parts.append((e.snap, NONE))
                elif isinstance(e.exit, BreakX):
                    brk.append(e)
            allp = parts + [(e.snap, NONE) for e in brk]
            new = {}
            for p, _ in allp:
                for k, names in self.diff_state(sh[0], p[0]).items():
                    if k not in s0[0]:
                        continue
                    if k not in mod:
                        new[k] = names if k not in new or names is None else (names | new[k])
                    elif names is not None and mod[k] is not None and not names <= mod[k]:
                        new[k] = names | mod[k] | new.get(k, set())
            bad = self.small_broken(small, sh, [p for p, _ in allp])
            small["bad"] |= bad
            if not new and not bad:
                break
            mod.update(new)
        for e in entries:
            if not isinstance(e.exit, (ContinueX, BreakX)):
                self.sinks[-1].append(e)
        # record loop phis
        if test is not None and len(parts) == 1:
            p = parts[0][0]
            self.loopenter[uid] = [x for x in p[1] if x not in sh[1]] + [x for x in p[2] if x not in sh[2] and x not in p[1]]
        for p, _ in parts:
            for k, names in mod.items():
                c0, c1 = s0[0].get(k), p[0].get(k)
                if c0 is not None and c1 is not None and c0.kind in ("env", "obj") and c1.kind == c0.kind:
                    v0 = c0.vars if c0.kind == "env" else c0.fields
                    v1 = c1.vars if c0.kind == "env" else c1.fields
                    for nm in names:
                        if isinstance(v0.get(nm), T) and isinstance(v1.get(nm), T):
                            for kd in ("any", "int", "float", "bool"):
                                pre = mk("lpre", uid, k, nm, kd)
                                self.loopphi.setdefault(pre, (v0[nm], []))[1].append(v1[nm])
                        elif isinstance(v1.get(nm), T):
                            self.loopphi.setdefault(mk("lpre", uid, k, nm, "any"), (v0.get(nm), []))[1].append(v1[nm])
        if small["refs"]:
            now = self.snapshot()
            for (k, n), (r, shp) in small["refs"].items():
                terms = []
                for q in [s0] + [p for p, _ in parts]:
                    self.restore(q)
                    c = self.heap[k]
                    v = (c.vars if c.kind == "env" else c.fields).get(n)
                    sa, ea, _, _ = self.np.as_array(self, v)
                    terms.append(tm.arr_term(sa, ea))
                self.loopphi[mk("lpre", uid, k, n, "arr")] = (terms[0], terms[1:])
            self.restore(now)
        outs = []
        for e in brk:
            outs.append((e.snap, NONE))
        if target is not None:
            self.restore(sh)
            outs.append((self.snapshot(), NONE))
        if not outs:
            raise DeadX()
        iter_log = None
        if parts:
            evs = self.events(parts[0][0][3], None)
            if evs:
                iter_log = ("loop", mk("lv", uid), self.fresh("itercount"), evs)
        self.log = None
        # exits from the loop: prepend log of previous iterations
        fixed = []
        for s, v in outs:
            tail = self.events(s[3], None)
            lg = s0[3]
            if iter_log is not None:
                lg = (lg, iter_log)
            for x in tail:
                lg = (lg, x)
            fixed.append(((s[0], s[1], s[2], lg, s[4]), v))
        base = (sh[0], sh[1], sh[2], s0[3] if iter_log is None else (s0[3], iter_log), sh[4])
        if iter_log is not None:
            common = base[3]
            fixed = []
            for s, v in outs:
                lg = common
                for x in self.events(s[3], None):
                    lg = (lg, x)
                fixed.append(((s[0], s[1], s[2], lg, s[4]), v))
        self.merge_entries(base, fixed)
        if len(fixed) == 1:
            pass

    def _brk(self):
        raise BreakX()

    def x_Break(self, st):
        raise BreakX()

    def x_Continue(self, st):
        raise ContinueX()

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return self.unk("expr:" + type(n).__name__)
        return m(n)

    def e_Constant(self, n):
        return const(n.value)

    def e_Name(self, n):
        return self.lookup(n.id)

    def e_Tuple(self, n):
        return Tup(self.elts(n.elts))

    def e_List(self, n):
        return self.alloc(Lst(self.elts(n.elts)))

    def e_Set(self, n):
        return self.alloc(SetC(self.elts(n.elts)))

    def elts(self, es):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                items = self.known_items(self.ev(e.value))
                if items is None:
                    out.append(self.unk("starred"))
                else:
                    out.extend(items)
            else:
                out.append(self.ev(e))
        return out

    def e_Dict(self, n):
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.res(self.ev(v))
                if isinstance(d, Ref) and self.cell(d).kind == "dict":
                    for kk, vv in self.cell(d).items:
                        items = [(a, b) for a, b in items if a != kk] + [(kk, vv)]
                else:
                    self.unk("dict unpack")
                continue
            kk = self.ev(k)
            vv = self.ev(v)
            items = [(a, b) for a, b in items if a != kk] + [(kk, vv)]
        return self.alloc(Dct(items))

    def e_BinOp(self, n):
        a = self.ev(n.left)
        b = self.ev(n.right)
        self.setloc(n)
        op = type(n.op).__name__
        return self.lift([a, b], lambda a, b: self.np.binop(self, op, a, b))

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        self.setloc(n)
        if isinstance(n.op, ast.Not):
            return tm.not_(self.truth(v))
        op = type(n.op).__name__
        return self.lift([v], lambda v: self.np.unop(self, op, v))

    def e_BoolOp(self, n):
        return self.boolop(n.values, isinstance(n.op, ast.And))

    def boolop(self, vals, is_and):
        v = self.ev(vals[0])
        if len(vals) == 1:
            return v
        c = self.truth(v)
        rest = lambda: self.boolop(vals[1:], is_and)
        if is_and:
            return self.branch(c, rest, lambda: v)
        return self.branch(c, lambda: v, rest)

    def cond(self, n):
        """truth term of a condition expression"""
        if isinstance(n, ast.BoolOp):
            return self.condop(n.values, isinstance(n.op, ast.And))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return tm.not_(self.cond(n.operand))
        return self.truth(self.ev(n))

    def condop(self, vals, is_and):
        c = self.cond(vals[0])
        if len(vals) == 1:
            return c
        if is_and:
            r = self.branch(c, lambda: self.condop(vals[1:], True), lambda: FALSE)
        else:
            r = self.branch(c, lambda: TRUE, lambda: self.condop(vals[1:], False))
        return r

    def e_Compare(self, n):
        left = self.ev(n.left)
        rights = []
        res = None
        cur = left
        for op, rn in zip(n.ops, n.comparators):
            r = self.ev(rn)
            self.setloc(n)
            o = type(op).__name__
            x = self.lift([cur, r], lambda a, b: self.np.compare(self, o, a, b))
            if res is None:
                res = x
            else:
                res = tm.and_(self.truth(res), self.truth(x))
            cur = r
        return res

    def e_IfExp(self, n):
        c = self.cond(n.test)
        return self.branch(c, lambda: self.ev(n.body), lambda: self.ev(n.orelse))

    def e_Attribute(self, n):
        o = self.ev(n.value)
        self.setloc(n)
        return self.getattr(o, n.attr)

    def e_Subscript(self, n):
        o = self.ev(n.value)
        k = self.ev(n.slice)
        self.setloc(n)
        return self.lift([o, k], lambda o, k: self.np.getitem(self, o, k))

    def e_Slice(self, n):
        return SliceV(*[NONE if x is None else self.ev(x) for x in (n.lower, n.upper, n.step)])

    def e_Starred(self, n):
        return self.ev(n.value)

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v)
        return v

    def e_Lambda(self, n):
        return self.make_fn(n, "<lambda>")

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value)
                spec = None
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec)
                conv = "r" if v.conversion == 114 else "s"
                parts.append(self.np.to_str(self, x, conv, spec))
        return self.np.mkstr(parts)

    def e_FormattedValue(self, n):
        return self.np.to_str(self, self.ev(n.value), "s", None)

    def e_ListComp(self, n):
        r = self.comp(n)
        if isinstance(r, list):
            return self.alloc(Lst(r))
        if isinstance(r, tuple):
            return self.alloc(SymLst(*r))
        return r

    def e_SetComp(self, n):
        r = self.comp(n)
        if isinstance(r, list):
            return self.alloc(SetC(r))
        return self.unk("setcomp")

    def e_GeneratorExp(self, n):
        r = self.comp(n)
        if isinstance(r, list):
            return IterV(items=r)
        if isinstance(r, tuple):
            return self.alloc(SymLst(*r))
        return r

    def e_DictComp(self, n):
        fake = ast.Tuple(elts=[n.key, n.value], ctx=ast.Load())
        ast.copy_location(fake, n.key)
        r = self.comp(n, fake)
        if isinstance(r, list):
            items = []
            for t in r:
                k, v = t.items
                items = [(a, b) for a, b in items if a != k] + [(k, v)]
            return self.alloc(Dct(items))
        return self.unk("dictcomp")

    def comp(self, n, elt=None):
        elt = elt or n.elt
        fr = self.frames[-1]
        env = self.alloc(Env({}, fr["env"]))
        nf = dict(fr)
        nf["env"] = env
        nf.pop("nonlocal", None)
        if fr.get("classbody"):
            nf.pop("classbody", None)
        self.frames.append(nf)
        try:
            return self._comp(n.generators, elt)
        finally:
            self.frames.pop()

    def _comp(self, gens, elt):
        if not gens:
            return [self.ev(elt)]
        g = gens[0]
        itv = self.res(self.ev(g.iter))
        it = self.iterate(itv)
        if it[0] == "sym":
            k = tm.num(it[1])
            if k is not None and k.denominator == 1 and k <= 64:
                it = ("known", [it[2](const(i)) for i in range(int(k))])
        if it[0] == "known":
            out = []
            for x in it[1]:
                self.assign(g.target, x)
                ok = True
                for c in g.ifs:
                    t = self.cond(c)
                    d = self.decide(t)
                    if d is None:
                        return self.unk("comprehension filter undecided")
                    if not d:
                        ok = False
                        break
                if not ok:
                    continue
                r = self._comp(gens[1:], elt)
                if not isinstance(r, list):
                    if len(gens) > 1:
                        return self.unk("nested symbolic comprehension")
                    return r
                out.extend(r)
            return out
        if it[0] == "sym" and not g.ifs and len(gens) == 1:
            self.counter += 1
            lv = mk("lv", self.counter)
            self.lvlen[lv] = it[1]
            since = self.log
            self.assign(g.target, it[2](lv))
            v = self.ev(elt)
            evs = self.events(self.log, since)
            if evs:
                self.log = (since, ("loop", lv, it[1], evs))
            return (it[1], lv, v)
        return self.unk("comprehension over unknown")

    def e_Call(self, n):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            return self.make_super()
        if isinstance(n.func, ast.Name) and n.func.id in ("locals", "globals", "vars"):
            return self.unk(n.func.id)
        f = self.ev(n.func)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                items = self.known_items(self.ev(a.value))
                if items is None:
                    args.append(self.unk("*args"))
                else:
                    args.extend(items)
            else:
                args.append(self.ev(a))
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                d = self.res(v)
                if isinstance(d, Ref) and self.cell(d).kind == "dict":
                    for kk, vv in self.cell(d).items:
                        kw[tm.pyval(kk) if isinstance(kk, T) else str(kk)] = vv
                else:
                    self.unk("**kwargs")
            else:
                kw[k.arg] = v
        self.setloc(n)
        self.callsites.add(self.loc)
        loc = self.loc
        r = self.lift([f], lambda f: self.call(f, args, kw))
        self.loc = loc
        if isinstance(r, Ref) and isinstance(self.res(f), Ext):
            self.literal_dtype(self.res(f).name, n, r)
        return r

    def literal_dtype(self, name, n, r):
        """type of the elements of a new array given by literals (as values, 1 and 1.0 are the same)"""
        c = self.cell(r)
        if c.kind != "arr" or c.dtype != "int?":
            return
        pos, key = (1, "fill_value") if name == "numpy.full" else (0, "object")
        if name not in ("numpy.full", "numpy.array", "numpy.asarray", "numpy.asfortranarray", "numpy.ascontiguousarray"):
            return
        d = [k.value for k in n.keywords if k.arg in (key, "a")] or list(n.args[pos:pos + 1])
        if not d or any(isinstance(a, ast.Starred) for a in n.args):
            return

        def kind(x):
            if isinstance(x, ast.Constant):
                return {float: "float", int: "int"}.get(type(x.value))
            if isinstance(x, ast.UnaryOp):
                return kind(x.operand)
            if isinstance(x, ast.BinOp):
                ks = {kind(x.left), kind(x.right)}
                return "float" if isinstance(x.op, ast.Div) or "float" in ks else "int" if ks == {"int"} else None
            if isinstance(x, (ast.List, ast.Tuple)):
                ks = {kind(y) for y in x.elts}
                return "float" if "float" in ks else "int" if ks == {"int"} else None
        k = kind(d[0])
        if k:
            self.setcell(r, Arr(c.shape, c.elem, k, c.mask))

    def make_super(self):
        fr = self.frames[-1]
        fn = fr.get("fn")
        slf = fr.get("self")
        return SuperV(fr.get("ownercls"), slf)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        f = self.res(f)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw)
        if isinstance(f, Bound):
            return self.call_fn(f.fn, [f.self] + list(args), kw, self_=f.self)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw)
        if isinstance(f, Partial):
            k = dict(f.kwargs)
            k.update(kw)
            return self.call(f.fn, list(f.args) + list(args), k)
        if isinstance(f, Ext):
            return self.np.call_ext(self, f.name, list(args), dict(kw))
        if isinstance(f, ExtBound):
            return self.np.call_method(self, f.recv, f.name, list(args), dict(kw))
        if isinstance(f, Phi):
            return self.lift([f], lambda g: self.call(g, args, kw))
        if isinstance(f, Ref):
            c = self.cell(f)
            if c.kind == "obj":
                m, owner = c.cls.lookup("__call__")
                if isinstance(m, Fn):
                    return self.call_fn(m, [f] + list(args), kw, self_=f, owner=owner)
                self.raise_("TypeError", "not callable")
            if c.kind in ("arr", "view", "list", "dict", "set"):
                self.raise_("TypeError", "not callable")
        if isinstance(f, T) and (f.op == "const" or self.kind(f) in ("int", "float", "bool", "str")):
            self.raise_("TypeError", "not callable")
        if isinstance(f, Tup):
            self.raise_("TypeError", "not callable")
        self.emit("unknown-call", f=repr(f), args=[self.vn(a) for a in args])
        return self.unk("call of unknown")

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        if len(args) > len(names):
            if a.vararg is None:
                self.raise_("TypeError", "%s() takes %d positional arguments but %d were given" % (
                    f.name, len(names), len(args)))
            out[a.vararg.arg] = Tup(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            out[a.vararg.arg] = Tup(())
        for n, v in zip(names, args):
            out[n] = v
        kwo = [x.arg for x in a.kwonlyargs]
        extra = []
        posonly = {x.arg for x in a.posonlyargs}
        for k, v in kw.items():
            if k in names and k not in posonly:
                if k in out:
                    self.raise_("TypeError", "%s() got multiple values for argument '%s'" % (f.name, k))
                out[k] = v
            elif k in kwo:
                out[k] = v
            elif a.kwarg is not None:
                extra.append((const(k), v))
            else:
                self.raise_("TypeError", "%s() got an unexpected keyword argument '%s'" % (f.name, k))
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.alloc(Dct(extra))
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in out:
                j = i - (len(names) - nd)
                if j >= 0:
                    out[n] = f.defaults[j]
                else:
                    self.raise_("TypeError", "%s() missing required argument '%s'" % (f.name, n))
        for n, d in zip(kwo, f.kwdefaults):
            if n not in out:
                if d is None:
                    self.raise_("TypeError", "%s() missing keyword argument '%s'" % (f.name, n))
                out[n] = d
        return out

    def call_fn(self, f, args, kw, self_=None, owner=None):
        stub = self.stubs.get(f.qual)
        if stub is not None:
            r = stub(self, f, args, kw)
            if r is not NotImplemented:
                return r
        if len(self.frames) > self.MAXDEPTH:
            return self.unk("call depth")
        bound = self.bind(f, args, kw)
        self.analysed.add(f.qual)
        if f.qual.startswith("simcats") and (not self.frames or not self.frames[-1]["qual"].startswith("simcats")):
            e = (f.qual, getattr(f.node, "lineno", 0))
            if e in self.entries:
                self.entries.remove(e)
            self.entries.append(e)
        env = self.alloc(Env(bound, f.env))
        if self_ is None and args and f.cls and f.node and getattr(f.node, "args", None) and f.node.args.args \
                and f.node.args.args[0].arg == "self":
            self_ = args[0]
        fr = dict(qual=f.qual, module=f.module, env=env, cls=f.cls, fn=f, self=self_)
        if f.cls is not None and self_ is not None:
            fr["ownercls"] = self.owner_of(f, self_)
        if isinstance(f.node, ast.Lambda):
            self.frames.append(fr)
            try:
                return self.ev(f.node.body)
            finally:
                self.frames.pop()
        base = self.snapshot()
        depth = len(self.frames)
        self.frames.append(fr)
        saved_loc = self.loc
        hk = self.hooks.get("enter")
        if hk:
            hk(self, f, bound)
        if self._is_generator(f.node):
            self.frames.pop()
            return self.unk("generator function")
        try:
            _, alive, entries = self.scope(lambda: self.exec_block(f.node.body))
        finally:
            del self.frames[depth:]
            self.loc = saved_loc
        parts = []
        for e in entries:
            if isinstance(e.exit, ReturnX):
                parts.append((e.snap, e.exit.value))
            else:
                self.sinks[-1].append(e)
        if alive:
            parts.append((self.snapshot(), NONE))
        if not parts:
            raise DeadX()
        v = self.merge_entries(base, parts)
        return v

    def _is_generator(self, node):
        g = getattr(node, "_sa_gen", None)
        if g is None:
            g = False
            st = list(node.body)
            while st:
                x = st.pop()
                if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    g = True
                    break
                st.extend(ast.iter_child_nodes(x))
            node._sa_gen = g
        return g

    def owner_of(self, f, self_):
        s = self.res(self_)
        if isinstance(s, Ref) and s.id in self.heap and self.heap[s.id].kind == "obj":
            for c in self.heap[s.id].cls.mro:
                if isinstance(c, Cls) and c.name == f.cls and c.qual == f.qual.rsplit(".", 1)[0]:
                    return c
            for c in self.heap[s.id].cls.mro:
                if isinstance(c, Cls) and c.name == f.cls:
                    return c
        return None

    def instantiate(self, c, args, kw):
        if any(isinstance(b, Ext) and self.np.exc_sub(b.name, "BaseException") for b in c.mro):
            return Exc(c, tuple(args), self.loc)
        abstract = [n for n in self.abstract_names(c)]
        if abstract:
            self.raise_("TypeError", "Can't instantiate abstract class %s with abstract methods %s" % (c.name, abstract))
        ref = self.alloc(Obj(c, {}))
        self.meta[ref.id] = dict(origin="instance", cls=c.name, loc=self.loc, func=self.frames[-1]["qual"] if self.frames else "")
        init, owner = c.lookup("__init__")
        if isinstance(init, Fn):
            self.call_fn(init, [ref] + list(args), kw, self_=ref, owner=owner)
        elif args or kw:
            self.raise_("TypeError", "%s() takes no arguments" % c.name)
        return ref

    def abstract_names(self, c):
        out = {}
        for k in reversed(c.mro):
            if isinstance(k, Cls):
                for n, v in k.ns.items():
                    fl = getattr(v, "flags", ())
                    out[n] = "abstract" in fl
        return [n for n, a in out.items() if a]

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        return self.lift([o], lambda o: self.getattr1(o, name))

    def getattr1(self, o, name):
        name = self.mangle(name)
        if isinstance(o, Mod):
            v = self.mod_attr(o, name)
            if v is None:
                self.raise_("AttributeError", name)
            return v
        if isinstance(o, Ext):
            return self.np.ext_attr(self, o, name)
        if isinstance(o, Cls):
            if name in ("__name__", "__qualname__"):
                return const(o.name)
            if name == "__module__":
                return const(o.module.name)
            v, owner = self.cls_lookup(o, name)
            if v is None:
                if name.startswith("__"):
                    return self.unk("class attribute")
                self.raise_("AttributeError", name)
            if isinstance(v, Wrapped):
                return v.fn if v.kind == "staticmethod" else Bound(v.fn, o)
            return v
        if isinstance(o, SuperV):
            return self.super_attr(o, name)
        if isinstance(o, Ref):
            c = self.cell(o)
            if c.kind == "obj":
                return self.obj_attr(o, c, name)
            return self.np.ref_attr(self, o, c, name)
        if isinstance(o, (Bound, Fn)):
            fn = o.fn if isinstance(o, Bound) else o
            if name in ("__name__", "__qualname__"):
                return const(fn.name)
            if name == "__self__" and isinstance(o, Bound):
                return o.self
            if name == "__func__" and isinstance(o, Bound):
                return fn
            v = self.static_get(fn, name)
            if v is not UNBOUND:
                return v
            if name.startswith("__") or fn.flags:
                return self.unk("function attribute")
            self.raise_("AttributeError", name)
        if isinstance(o, Partial):
            if name == "func":
                return o.fn
            return self.unk("partial attr")
        return self.np.value_attr(self, o, name)

    def obj_attr(self, o, c, name):
        v, owner = self.cls_lookup(c.cls, name)
        if isinstance(v, Prop):
            if v.fget is None:
                self.raise_("AttributeError", name)
            return self.call(Bound(v.fget, o), [], {})
        if name in c.fields:
            x = self.res(c.fields[name])
            if x is UNBOUND:
                self.raise_("AttributeError", name)
            return x
        if v is not None:
            if isinstance(v, Fn):
                return Bound(v, o)
            if isinstance(v, Wrapped):
                return v.fn if v.kind == "staticmethod" else Bound(v.fn, c.cls)
            return v
        if name == "__class__":
            return c.cls
        if name == "__dict__":
            return self.alloc(Dct([(const(k), x) for k, x in c.fields.items()]))
        ga, _ = c.cls.lookup("__getattr__")
        if isinstance(ga, Fn):
            return self.call(Bound(ga, o), [const(name)], {})
        self.raise_("AttributeError", "'%s' object has no attribute '%s'" % (c.cls.name, name))

    def super_attr(self, o, name):
        s = self.res(o.self)
        cls = self.cell(s).cls if isinstance(s, Ref) and self.cell(s).kind == "obj" else None
        if cls is None or o.cls is None:
            return self.unk("super")
        mro = cls.mro
        i = mro.index(o.cls) if o.cls in mro else 0
        for k in mro[i + 1:]:
            if isinstance(k, Cls) and name in k.ns:
                v = k.ns[name]
                if isinstance(v, Prop):
                    return self.call(Bound(v.fget, s), [], {})
                if isinstance(v, Fn):
                    return Bound(v, s)
                if isinstance(v, Wrapped):
                    return v.fn if v.kind == "staticmethod" else Bound(v.fn, cls)
                return v
        return Ext("object." + name)

    def setattr(self, o, name, v):
        name = self.mangle(name)
        self.lift([o], lambda o: self.setattr1(o, name, v))

    def setattr1(self, o, name, v):
        if isinstance(o, Ref):
            c = self.cell(o)
            if c.kind == "obj":
                d, owner = self.cls_lookup(c.cls, name)
                if isinstance(d, Prop):
                    if d.fset is None:
                        self.raise_("AttributeError", "can't set attribute " + name)
                    self.emit("propset", ref=o.id, name=name, value=v)
                    self.call(Bound(d.fset, o), [v], {})
                    return NONE
                f = dict(c.fields)
                f[name] = v
                self.setcell(o, Obj(c.cls, f))
                self.emit("setattr", ref=o.id, name=name, value=v)
                return NONE
            if c.kind in ("arr", "view"):
                return self.np.set_array_attr(self, o, name, v)
            if c.kind == "list":
                self.raise_("AttributeError", name)
        if isinstance(o, T) and self.kind(o) in ("int", "float", "str", "bool", "none"):
            self.raise_("AttributeError", name)
        if isinstance(o, Mod):
            c = self.heap[o.env.id]
            vs = dict(c.vars)
            vs[name] = v
            self.heap[o.env.id] = Env(vs, c.parent)
            return NONE
        if isinstance(o, (Cls, Fn)) and self.static_set(o, name, v):
            return NONE
        self.emit("unknown-setattr", o=repr(o), name=name)
        return NONE

    # ------------------------------------------------------------ iteration / truth
    def known_items(self, v):
        v = self.res(v)
        it = self.iterate(v)
        if it[0] == "known":
            return it[1]
        if it[0] == "sym":
            k = tm.num(it[1])
            if k is not None and k.denominator == 1 and k <= 64:
                return [it[2](const(i)) for i in range(int(k))]
        return None

    def iterate(self, v):
        """('known', list) | ('sym', length, get) | ('unknown',)"""
        v = self.res(v)
        if isinstance(v, Tup):
            return "known", list(v.items)
        if isinstance(v, RangeV):
            n = self.np.range_len(self, v)
            k = tm.num(n)
            if k is not None:
                return "known", [tm.add(v.start, tm.mul(const(i), v.step)) for i in range(int(k))] if k <= 256 else None
            return "sym", n, lambda i: tm.add(v.start, tm.mul(i, v.step))
        if isinstance(v, IterV):
            if v.guards is not None:
                return "guarded", list(v.guards)
            if v.items is not None:
                return "known", list(v.items)
            k = tm.num(v.length)
            if k is not None:
                return "known", [v.get(const(i)) for i in range(int(k))]
            return "sym", v.length, v.get
        if isinstance(v, Ref):
            c = self.cell(v)
            if c.kind in ("list", "set"):
                if any(isinstance(x, T) and x.op == "lmark" for x in c.items):
                    return ("unknown",)
                return "known", list(c.items)
            if c.kind == "symlist":
                return "sym", c.length, lambda i: self.np.subst_value(self, c.value, {c.var: i})
            if c.kind == "dict":
                return "known", [k for k, _ in c.items]
            if c.kind in ("arr", "view"):
                shape, el, dt, mask = self.np.as_array(self, v)
                if mask is not None:
                    dims = [tm.num(x) for x in shape]
                    if all(x is not None for x in dims) and isinstance(mask, T) and isinstance(el, T):
                        import itertools
                        idx = list(itertools.product(*[range(int(x)) for x in dims]))
                        if len(idx) <= 64:
                            mp = [{IX[j]: const(q) for j, q in enumerate(i)} for i in idx]
                            return "guarded", [(self.truth(tm.subst(mask, m)), tm.subst(el, m)) for m in mp]
                    return ("unknown",)
                if not shape:
                    self.raise_("TypeError", "iteration over a 0-d array")
                k = tm.num(shape[0])
                if k is not None and k <= 64:
                    return "known", [self.np.getitem(self, v, const(i)) for i in range(int(k))]
                return "sym", shape[0], lambda i: self.np.getitem(self, v, i)
            if c.kind == "obj":
                m, _ = c.cls.lookup("__iter__")
                if m is None:
                    self.raise_("TypeError", "not iterable")
        if isinstance(v, T):
            if v.op == "const" and isinstance(v.args[1], str):
                return "known", [const(ch) for ch in v.args[1]]
            if self.kind(v) in ("int", "float", "none", "bool"):
                self.raise_("TypeError", "'%s' object is not iterable" % self.kind(v))
        if isinstance(v, NonZero):
            return ("unknown",)
        return ("unknown",)

    def truth(self, v):
        v = self.res(v)
        if isinstance(v, Phi):
            a = None
            return self.lift([v], self.truth)
        if isinstance(v, T):
            op = v.op
            if op in ("pos", "eq0", "eq", "not", "and", "or", "isnan"):
                return v
            if op == "const":
                return TRUE if v.args[1] else FALSE
            k = self.kind(v)
            if k in ("int", "float", "npnum"):
                return tm.not_(tm.eq(v, ZERO))
            if k == "bool":
                return v
            if op in ("fstr",):
                return TRUE
            if op == "ite":
                return tm.ite(v.args[0], self.truth(v.args[1]), self.truth(v.args[2]))
            return mk("truth", v) if op != "truth" else v
        if isinstance(v, Tup):
            return TRUE if v.items else FALSE
        if isinstance(v, Ref):
            c = self.cell(v)
            if c.kind in ("list", "dict", "set"):
                return TRUE if c.items else FALSE
            if c.kind == "symlist":
                return tm.pos(c.length)
            if c.kind in ("arr", "view"):
                sh = self.np.shape_of(self, v)
                size = tm.mul(*sh) if sh else ONE
                k = tm.num(size)
                if k == 1:
                    s, e, d, m = self.np.as_array(self, v)
                    return self.truth(tm.subst(e, {IX[i]: ZERO for i in range(len(s))}))
                if k is None and self.decide(tm.pos(tm.sub(size, ONE))) is not True:
                    return mk("truth", self.unk("array size"))
                self.raise_("ValueError", "truth value of an array is ambiguous")
            if c.kind == "obj":
                for m in ("__bool__", "__len__"):
                    f, _ = c.cls.lookup(m)
                    if isinstance(f, Fn):
                        return self.truth(self.call(Bound(f, v), [], {}))
            return TRUE
        return TRUE

    # ------------------------------------------------------------ value numbers of whole values
    def vn(self, v, depth=0):
        v = self.res(v)
        if isinstance(v, T):
            return v
        if depth > 8:
            return mk("deep")
        if isinstance(v, Tup):
            return mk("tuple", *[self.vn(x, depth + 1) for x in v.items])
        if isinstance(v, Phi):
            return mk("phi", v.cond, self.vn(v.a, depth + 1), self.vn(v.b, depth + 1))
        if isinstance(v, Ref):
            c = self.cell(v)
            if c.kind in ("arr", "view"):
                s, e, d, m = self.np.as_array(self, v)
                t = tm.arr_term(s, e)
                if m is not None:
                    return mk("compressed", t, m)
                return t
            if c.kind == "list":
                return mk("list", *[self.vn(x, depth + 1) for x in c.items])
            if c.kind == "symlist":
                return mk("symlist", c.length, c.var, self.vn(c.value, depth + 1))
            if c.kind == "dict":
                return mk("dict", *[mk("kv", self.vn(k, depth + 1), self.vn(x, depth + 1)) for k, x in c.items])
            return mk("objid", v.id)
        if isinstance(v, RangeV):
            return mk("range", v.start, v.stop, v.step)
        if isinstance(v, Bound):
            return mk("bound", v.fn.qual, self.vn(v.self, depth + 1))
        if isinstance(v, Fn):
            return mk("func", v.qual)
        if isinstance(v, (Ext,)):
            return mk("ext", v.name)
        if isinstance(v, Cls):
            return mk("cls", v.qual)
        if isinstance(v, Partial):
            return mk("partial", self.vn(v.fn, depth + 1), *([self.vn(a, depth + 1) for a in v.args] +
                      [mk("kw", k, self.vn(a, depth + 1)) for k, a in sorted(v.kwargs.items())]))
        return mk("val", type(v).__name__)

    def reach(self, v, seen=None):
        """all refs reachable from a value"""
        if seen is None:
            seen = {}
        v = self.res(v)
        if isinstance(v, Ref):
            if v.id in seen:
                return []
            seen[v.id] = v
            c = self.heap.get(v.id)
            if c is None:
                return []
            if c.kind in ("list", "set"):
                for x in c.items:
                    self.reach(x, seen)
            elif c.kind == "dict":
                for k, x in c.items:
                    self.reach(k, seen)
                    self.reach(x, seen)
            elif c.kind == "obj":
                for x in c.fields.values():
                    self.reach(x, seen)
            elif c.kind == "view":
                self.reach(c.base, seen)
            elif c.kind == "symlist":
                self.reach(c.value, seen)
        elif isinstance(v, Tup):
            for x in v.items:
                self.reach(x, seen)
        elif isinstance(v, Phi):
            self.reach(v.a, seen)
            self.reach(v.b, seen)
        elif isinstance(v, Bound):
            self.reach(v.self, seen)
        elif isinstance(v, Partial):
            self.reach(v.fn, seen)
            for x in v.args:
                self.reach(x, seen)
            for x in v.kwargs.values():
                self.reach(x, seen)
        return list(seen.values())

    def deepcopy(self, v, memo=None):
        if memo is None:
            memo = {}
        v = self.res(v)
        if isinstance(v, Ref):
            if v.id in memo:
                return memo[v.id]
            c = self.cell(v)
            if c.kind == "obj":
                dc, _ = c.cls.lookup("__deepcopy__")
                if isinstance(dc, Fn):
                    return self.call(Bound(dc, v), [self.alloc(Dct(()))], {})
            r = self.alloc(c)
            memo[v.id] = r
            m = dict(self.meta.get(v.id, {}))
            m["copy_of"] = v.id
            m["copy_loc"] = self.loc
            m.pop("default", None)
            self.meta[r.id] = m
            if c.kind == "list":
                self.heap[r.id] = Lst([self.deepcopy(x, memo) for x in c.items])
            elif c.kind == "set":
                self.heap[r.id] = SetC([self.deepcopy(x, memo) for x in c.items])
            elif c.kind == "dict":
                self.heap[r.id] = Dct([(self.deepcopy(k, memo), self.deepcopy(x, memo)) for k, x in c.items])
            elif c.kind == "obj":
                self.heap[r.id] = Obj(c.cls, {k: self.deepcopy(x, memo) for k, x in c.fields.items()})
            elif c.kind == "view":
                s, e, d, mk_ = self.np.as_array(self, v)
                self.heap[r.id] = Arr(s, e, d, mk_)
            elif c.kind == "symlist":
                self.heap[r.id] = SymLst(c.length, c.var, self.deepcopy(c.value, memo))
            elif c.kind == "ext":
                self.heap[r.id] = ExtObj(c.cls, dict(c.data, copied=True))
            return r
        if isinstance(v, Tup):
            return Tup([self.deepcopy(x, memo) for x in v.items])
        if isinstance(v, Phi):
            return Phi(v.cond, self.deepcopy(v.a, memo), self.deepcopy(v.b, memo))
        if isinstance(v, Bound):
            return Bound(v.fn, self.deepcopy(v.self, memo))
        if isinstance(v, Partial):
            return Partial(self.deepcopy(v.fn, memo), [self.deepcopy(x, memo) for x in v.args],
                           {k: self.deepcopy(x, memo) for k, x in v.kwargs.items()})
        return v
