"""Value numbers: hash-consed, normalised expression DAG used as abstract values of scalars and array elements.

Arithmetic is kept in polynomial normal form over atoms, with (possibly symbolic) exponents on the factors,
so that re-associated, distributed or reordered source expressions get the same value number.  No term is ever
evaluated on concrete data; atoms stand for all values at once.
"""
from __future__ import annotations
from fractions import Fraction
import hashlib
import math

_table = {}
LOC = {}          # term -> first source location that produced it (diagnostics only)
_cur_loc = [None]


class T:
    __slots__ = ("op", "args", "_h", "_k", "_w")

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.args = args
        t._h = len(_table)
        t._k = None
        t._w = None
        _table[key] = t
        LOC[t] = _cur_loc[0]
    return t


def set_loc(loc):
    _cur_loc[0] = loc


def order_key(t):
    """Deterministic structural order of terms (independent of creation order)."""
    if t._k is None:
        t._k = _okey(t)
    return t._k


def _okey(t):
    out = [t.op]
    for a in t.args:
        out.append(_oarg(a))
    r = "(" + " ".join(out) + ")"
    if len(r) > 600:
        # large terms share parts: a digest keeps the keys of the terms built on top of them short
        r = "(" + t.op + " #" + hashlib.blake2b(r.encode(), digest_size=12).hexdigest() + ")"
    return r


def weight(t):
    """size of a term written out as a tree"""
    w = t._w
    if w is None:
        w = t._w = 1 + sum(weight(c) for c in children(t))
    return w


def _oarg(a):
    if isinstance(a, T):
        return order_key(a)
    if isinstance(a, tuple):
        return "[" + " ".join(_oarg(x) for x in a) + "]"
    return repr(a)


# ---------------------------------------------------------------- constants
def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
        return mk("const", type(v).__name__, v)
    if isinstance(v, (int, Fraction)):
        return _poly({(): Fraction(v)})
    if isinstance(v, float):
        if math.isinf(v):
            return mk("inf", 1 if v > 0 else -1)
        if math.isnan(v):
            return mk("nan")
        return _poly({(): Fraction(v)})
    if isinstance(v, complex):
        return mk("const", "complex", v)
    raise TypeError(v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t):
    return t.op == "const" or is_num(t)


def is_num(t):
    return t.op == "poly" and (not t.args[0] or (len(t.args[0]) == 1 and t.args[0][0][0] == ()))


def num(t):
    """Fraction value of a numeric constant term, else None."""
    if t.op == "poly":
        a = t.args[0]
        if not a:
            return Fraction(0)
        if len(a) == 1 and a[0][0] == ():
            return a[0][1]
        return None
    if t.op == "const" and t.args[0] == "bool":
        return Fraction(int(t.args[1]))
    return None


def pyval(t):
    """Python constant of a constant term; raises KeyError when not constant."""
    if t.op == "const":
        return t.args[1]
    n = num(t)
    if n is None:
        raise KeyError(t)
    return int(n) if n.denominator == 1 else float(n)


# ---------------------------------------------------------------- polynomials
# poly args: (((monomial, coeff), ...),) ; monomial = tuple of (atom, exponent) sorted; exponent = T (poly)
def _mono_key(m):
    return tuple((order_key(a), order_key(e)) for a, e in m)


def _poly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if len(items) == 1 and items[0][1] == 1:
        m = items[0][0]
        if len(m) == 1 and m[0][1].op == "poly" and num(m[0][1]) == 1:
            return m[0][0]          # plain atom stays an atom
    items.sort(key=lambda x: _mono_key(x[0]))
    return mk("poly", tuple(items))


def to_dict(t):
    if t.op == "poly":
        return dict(t.args[0])
    if t.op == "const" and t.args[0] == "bool":
        return {(): Fraction(int(t.args[1]))} if t.args[1] else {}
    return {((t, ONE),): Fraction(1)}


ONE = None
ZERO = _poly({})
ONE = mk("poly", (((), Fraction(1)),))
MINUS1 = mk("poly", (((), Fraction(-1)),))
TWO = const(2)
PI = mk("pi")
EXP = mk("e")


def add(*ts):
    d = {}
    for t in ts:
        if t.op in ("inf", "nan"):
            others = [x for x in ts if x is not t]
            if all(is_num(x) for x in others):
                return t
            return mk("unk", "infadd", *ts)
        for m, c in to_dict(t).items():
            d[m] = d.get(m, 0) + c
    return _poly(d)


def neg(t):
    if t.op == "inf":
        return mk("inf", -t.args[0])
    return _poly({m: -c for m, c in to_dict(t).items()})


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = add(d[a], e) if a in d else e
    return d


def _norm_mono(d):
    """dict atom->exponent  => (monomial, coeff, extra poly factors)"""
    out = {}
    coeff = Fraction(1)
    extra = []
    for a, e in d.items():
        if num(e) == 0:
            continue
        ne = num(e)
        if a.op == "poly":
            if ne is not None and ne.denominator == 1 and ne > 0:
                extra.append((a, int(ne)))
                continue
        if a is EXP:
            # e^(c*log y + rest) -> y^c * e^rest
            rest = {}
            for m, c in to_dict(e).items():
                if len(m) >= 1:
                    logs = [(f, x) for f, x in m if f.op == "log" and num(x) == 1]
                    if len(logs) == 1:
                        f = logs[0][0]
                        others = tuple((g, x) for g, x in m if g is not f)
                        ex = _poly({others: c})
                        extra.append((("pow", f.args[0], ex), 1))
                        continue
                rest[m] = c
            e = _poly(rest)
            if num(e) == 0:
                continue
        out[a] = e
    m = tuple(sorted(out.items(), key=lambda x: order_key(x[0])))
    return m, coeff, extra


def mul(*ts):
    res = {(): Fraction(1)}
    for t in ts:
        if t.op == "inf":
            vals = [num(x) for x in ts if x is not t]
            if all(v is not None and v != 0 for v in vals):
                s = t.args[0]
                for v in vals:
                    s *= 1 if v > 0 else -1
                return mk("inf", s)
            return mk("unk", "infmul", *ts)
        res = _mul_dicts(res, to_dict(t))
    return _poly(res)


def _mul_dicts(d1, d2):
    # cancellation of a sum against its own inverse
    for x, y in ((d1, d2), (d2, d1)):
        if len(x) == 1 and len(y) > 1:
            (m, c), = x.items()
            for a, e in m:
                if a.op == "poly" and num(e) is not None and num(e) < 0:
                    k = _proportional(y, dict(a.args[0]))
                    if k is not None:
                        d = dict(m)
                        d[a] = add(e, ONE)
                        mm, cc, ex = _norm_mono(d)
                        r = {mm: c * k * cc}
                        for p, n in ex:
                            r = _mul_dicts(r, to_dict(_xfactor(p, n)))
                        return r
    out = {}
    extras = []
    for m1, c1 in d1.items():
        for m2, c2 in d2.items():
            m, c, ex = _norm_mono(_mono_mul(m1, m2))
            if not ex:
                out[m] = out.get(m, 0) + c1 * c2 * c
            else:
                r = {m: c1 * c2 * c}
                for p, n in ex:
                    r = _mul_dicts(r, to_dict(_xfactor(p, n)))
                extras.append(r)
    for r in extras:
        for m, c in r.items():
            out[m] = out.get(m, 0) + c
    return {m: c for m, c in out.items() if c != 0}


def _xfactor(p, n):
    if isinstance(p, tuple):
        return power(p[1], p[2])
    r = p
    for _ in range(n - 1):
        r = mul(r, p)
    return r


def _proportional(d1, d2):
    if len(d1) != len(d2) or set(d1) != set(d2):
        return None
    k = None
    for m in d1:
        q = d1[m] / d2[m]
        if k is None:
            k = q
        elif k != q:
            return None
    return k


def power(b, e):
    ne = num(e)
    nb = num(b)
    if ne is not None:
        if ne == 0:
            return ONE
        if ne == 1:
            return b if b.op == "poly" or b.op != "const" else _poly(to_dict(b))
        if nb is not None and ne.denominator == 1:
            if nb == 0 and ne < 0:
                return mk("unk", "div0")
            return const(nb ** int(ne))
    if nb is not None and nb == 1:
        return ONE
    if nb is not None and nb == 0 and ne is not None and ne > 0:
        return ZERO
    d = to_dict(b)
    if len(d) == 1:
        (m, c), = d.items()
        mm = {}
        for a, x in m:
            mm[a] = mul(x, e)
        m2, c2, ex = _norm_mono(mm)
        if c == 1:
            r = _poly({m2: Fraction(1)})
        elif ne is not None and ne.denominator == 1:
            r = _poly({m2: Fraction(c) ** int(ne)})
        else:
            s = 1 if c > 0 else -1
            if s < 0 and not (ne is not None and ne.denominator == 1):
                # keep the sign inside an opaque factor
                return _poly({((b, e),): Fraction(1)}) if b.op == "poly" else _poly({((b, e),): Fraction(1)})
            cf = _poly({((const(c), e),): Fraction(1)}) if not is_num(const(c)) else mk_numpow(c, e)
            r = mul(cf, _poly({m2: Fraction(1)}))
        for p, n in ex:
            r = mul(r, _xfactor(p, n))
        return r
    if ne is not None and ne.denominator == 1 and 0 < ne <= 4:
        r = b
        for _ in range(int(ne) - 1):
            r = mul(r, b)
        return r
    if not d:
        return ZERO
    # sum base: normalise the leading coefficient
    lead = sorted(d.items(), key=lambda x: _mono_key(x[0]))[0][1]
    if ne is not None and ne.denominator == 1:
        nd = _poly({m: c / lead for m, c in d.items()})
        return _poly({((nd, e),): Fraction(1, 1) / (lead ** int(-ne)) if ne < 0 else lead ** int(ne)})
    return _poly({((b, e),): Fraction(1)})


def mk_numpow(c, e):
    return _poly({((mk("numatom", c), e),): Fraction(1)})


def div(a, b):
    nb = num(b)
    if nb is not None and nb == 0:
        return mk("unk", "div0", a)
    if b.op == "inf":
        return ZERO
    # proportional sums cancel
    da, db = to_dict(a), to_dict(b)
    if len(db) > 1:
        k = _proportional(da, db)
        if k is not None:
            return const(k)
    return mul(a, power(b, MINUS1))


def exp(a):
    return power(EXP, a) if num(a) != 0 else ONE


def log(a):
    d = to_dict(a)
    if len(d) == 1:
        (m, c), = d.items()
        if c > 0:
            parts = []
            for f, e in m:
                parts.append(mul(e, ONE if f is EXP else mk("log", f)))
            if c != 1:
                parts.append(mk("log", const(c)))
            return add(*parts) if parts else ZERO
    return mk("log", a)


# ---------------------------------------------------------------- booleans
def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "and":
        return or_(*[not_(x) for x in a.args])
    if a.op == "or":
        return and_(*[not_(x) for x in a.args])
    n = num(a)
    if n is not None:
        return TRUE if n == 0 else FALSE
    return mk("not", a)


def and_(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == "and":
            out.extend(x.args)
        else:
            out.append(x)
    s = {}
    for x in out:
        if not_(x) in s:
            return FALSE
        s[x] = 1
    ys = sorted(s, key=order_key)
    if not ys:
        return TRUE
    if len(ys) == 1:
        return ys[0]
    return mk("and", *ys)


def or_(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x.op == "or":
            out.extend(x.args)
        else:
            out.append(x)
    s = {}
    for x in out:
        if not_(x) in s:
            return TRUE
        s[x] = 1
    ys = sorted(s, key=order_key)
    if not ys:
        return FALSE
    if len(ys) == 1:
        return ys[0]
    return mk("or", *ys)


def numeric_like(t):
    return t.op in ("poly", "sel", "inf", "pi", "e") or (t.op == "const" and t.args[0] == "bool") or t.op not in (
        "const", "and", "or", "not", "pos", "eq", "str", "fstr")


def lt(a, b):
    """a < b"""
    d = sub(b, a) if a.op not in ("inf",) and b.op not in ("inf",) else None
    if d is None:
        if b.op == "inf" and b.args[0] > 0 and a.op != "inf":
            return TRUE
        if a.op == "inf" and a.args[0] < 0 and b.op != "inf":
            return TRUE
        return FALSE
    return pos(d)


def le(a, b):
    return not_(lt(b, a))


def pos(d):
    n = num(d)
    if n is not None:
        return TRUE if n > 0 else FALSE
    # scale to a canonical positive multiple
    dd = to_dict(d)
    lead = sorted(dd.items(), key=lambda x: _mono_key(x[0]))[0][1]
    k = abs(lead)
    if k != 1:
        d = _poly({m: c / k for m, c in dd.items()})
    return mk("pos", d)


def eq(a, b):
    if a is b:
        return TRUE
    ca, cb = a.op == "const", b.op == "const"
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        return TRUE if na == nb else FALSE
    if ca and cb:
        return TRUE if (a.args == b.args) else FALSE
    if (ca and na is None) or (cb and nb is None):
        # None / str against something else
        x, y = (a, b) if ca else (b, a)
        if y.op in ("poly", "inf", "pi"):
            return FALSE
        return mk("eq", x, y)
    if a.op in ("inf",) or b.op in ("inf",):
        return FALSE if (is_num(a) or is_num(b) or (a.op == b.op)) else mk("eq", *sorted((a, b), key=order_key))
    d = sub(a, b)
    if num(d) is not None:
        return TRUE if num(d) == 0 else FALSE
    if len(to_dict(d)) == 1 and False:
        pass
    dd = to_dict(d)
    lead = sorted(dd.items(), key=lambda x: _mono_key(x[0]))[0][1]
    d = _poly({m: c / lead for m, c in dd.items()})
    return mk("eq0", d)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if a is TRUE:
        return or_(c, b)
    if b is FALSE:
        return and_(c, a)
    if a is FALSE:
        return and_(not_(c), b)
    if b is TRUE:
        return or_(not_(c), a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if c.op == "or":
        # canonical: negative form
        pass
    return mk("ite", c, a, b)


# ---------------------------------------------------------------- min / max / misc
def minmax(which, *xs):
    flat = []
    for x in xs:
        if x.op == which:
            flat.extend(x.args)
        else:
            flat.append(x)
    s = {}
    cst = None
    for x in flat:
        n = num(x)
        if n is not None:
            cst = n if cst is None else (min if which == "min" else max)(cst, n)
        elif x.op == "inf":
            if (x.args[0] > 0) == (which == "min"):
                continue
            return x
        else:
            s[x] = 1
    ys = sorted(s, key=order_key)
    if cst is not None:
        ys.append(const(cst))
    if not ys:
        return mk("inf", 1 if which == "min" else -1)
    if len(ys) == 1:
        return ys[0]
    return mk(which, *ys)


def abs_(a):
    n = num(a)
    if n is not None:
        return const(abs(n))
    if a.op == "abs":
        return a
    dd = to_dict(a)
    if len(dd) == 1:
        (m, c), = dd.items()
        # |c*x^-1*y| -> |c| * prod |x|^e ; even powers drop the bars
        fs = []
        for f, e in m:
            ne = num(e)
            if ne is not None and ne.denominator == 1:
                if ne % 2 == 0 or f.op in ("abs", "pi", "e", "sqrt", "norm", "len", "dim"):
                    fs.append(power(f, e))
                else:
                    fs.append(power(mk("abs", f), e))
            elif f in (EXP,):
                fs.append(power(f, e))
            else:
                return mk("abs", _poly({m: Fraction(abs(c))}))
        return mul(const(abs(c)), *fs)
    lead = sorted(dd.items(), key=lambda x: _mono_key(x[0]))[0][1]
    if lead < 0:
        a = neg(a)
    return mk("abs", a)


# ---------------------------------------------------------------- rebuilding / substitution
def rebuild(t, args):
    op = t.op
    if op == "poly":
        raise AssertionError
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "not":
        return not_(args[0])
    if op == "pos":
        return pos(args[0])
    if op == "eq":
        return eq(*args)
    if op == "eq0":
        return eq(args[0], ZERO)
    if op == "ite":
        return ite(*args)
    if op in ("min", "max"):
        return minmax(op, *args)
    if op == "abs":
        return abs_(args[0])
    if op == "log":
        return log(args[0])
    if op == "fn":
        return fn(args[0], *args[1:])
    if op == "case":
        return case(*args)
    return mk(op, *args)


def fn(name, *args):
    """Elementwise real function with a few exact identities."""
    a = args[0]
    if name == "floordiv":
        return floordiv(*args)
    if name == "mod":
        return mod(*args)
    if name == "sqrt":
        return power(a, const(Fraction(1, 2)))
    n = num(a) if isinstance(a, T) else None
    if name in ("sin", "tan", "tanh", "arctan", "arcsin", "sinh", "sign"):
        if n == 0:
            return ZERO
        if n is None and isinstance(a, T):
            dd = to_dict(a)
            if dd:
                lead = sorted(dd.items(), key=lambda x: _mono_key(x[0]))[0][1]
                if lead < 0:
                    return neg(fn(name, neg(a)))
    if name in ("cos", "cosh"):
        if n == 0:
            return ONE
        if n is None and isinstance(a, T):
            dd = to_dict(a)
            if dd:
                lead = sorted(dd.items(), key=lambda x: _mono_key(x[0]))[0][1]
                if lead < 0:
                    return fn(name, neg(a))
    if name in ("floor", "round", "int", "ceil") and n is not None:
        if n.denominator == 1:
            return a
        if name != "round":
            return const({"floor": math.floor, "int": int, "ceil": math.ceil}[name](n))
    return mk("fn", name, *args)


def subst(t, mp, memo=None):
    """Replace atoms by terms (mp: T -> T), renormalising."""
    if memo is None:
        memo = {}
    return _subst(t, mp, memo)


def _subst(t, mp, memo):
    if t in mp:
        return mp[t]
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "poly":
        changed = False
        parts = []
        for m, c in t.args[0]:
            fs = [const(c)]
            for a, e in m:
                a2 = _subst(a, mp, memo)
                e2 = _subst(e, mp, memo)
                if a2 is not a or e2 is not e:
                    changed = True
                fs.append(power(a2, e2))
            parts.append(fs)
        r = t if not changed else add(*[mul(*fs) for fs in parts])
    elif not t.args:
        r = t
    else:
        args = tuple(_subst_arg(a, mp, memo) for a in t.args)
        r = t if args == t.args else rebuild(t, args)
    memo[t] = r
    return r


def _subst_arg(a, mp, memo):
    if isinstance(a, T):
        return _subst(a, mp, memo)
    if isinstance(a, tuple):
        return tuple(_subst_arg(x, mp, memo) for x in a)
    return a


def children(t):
    if t.op == "poly":
        for m, c in t.args[0]:
            for a, e in m:
                yield a
                if e is not ONE:
                    yield e
    else:
        st = list(t.args)
        while st:
            a = st.pop()
            if isinstance(a, T):
                yield a
            elif isinstance(a, tuple):
                st.extend(a)


def walk(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


def atoms(t):
    return {x for x in walk(t) if x.op == "atom"}


def has_op(t, *ops):
    return any(x.op in ops for x in walk(t))


def atom(name, kind=None):
    return mk("atom", name) if kind is None else mk("atom", name, kind)


IX = [mk("ix", k) for k in range(8)]


def sel(base, *idx):
    return mk("sel", base, *idx)


_maxbv = {}


def max_bv(t):
    r = _maxbv.get(t)
    if r is None:
        r = -1
        if t.op == "bv":
            r = t.args[0]
        else:
            for c in children(t):
                k = max_bv(c)
                if k > r:
                    r = k
        _maxbv[t] = r
    return r


def arr_term(shape, elem):
    """Whole-array value number from its element function (eta-reduced)."""
    n = len(shape)
    if elem.op == "sel" and len(elem.args) == n + 1 and all(elem.args[k + 1] is IX[k] for k in range(n)) \
            and not any(x.op == "ix" for x in walk(elem.args[0])):
        return elem.args[0]
    b = max_bv(elem) + 1
    body = subst(elem, {IX[k]: mk("bv", b + k) for k in range(n)})
    return mk("arr", tuple(shape), b, body)


def reduce_term(name, dim, elem, axis, ndim):
    """name in sum/min/max/mean/any/all... over axis of an element function with ndim indices."""
    b = max_bv(elem) + 1
    mp = {IX[axis]: mk("bv", b)}
    for k in range(axis + 1, ndim):
        mp[IX[k]] = IX[k - 1]
    body = subst(elem, mp)
    return mk("red", name, dim, b, body)


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth + 1) for x in t) + ")"
        return str(t)
    if depth > 14:
        return "…"
    d = depth + 1
    if t.op == "poly":
        if not t.args[0]:
            return "0"
        out = []
        for m, c in t.args[0]:
            fs = []
            if c != 1 or not m:
                fs.append(str(c) if c.denominator < 10 ** 6 else "%g" % float(c))
            for a, e in m:
                s = show(a, d)
                if a.op == "poly":
                    s = "(" + s + ")"
                if e is not ONE:
                    s += "^" + ("(" + show(e, d) + ")" if not is_num(e) or num(e) < 0 else show(e, d))
                fs.append(s)
            out.append("*".join(fs))
        return " + ".join(out)
    if t.op == "const":
        return repr(t.args[1])
    if t.op == "atom":
        return str(t.args[0])
    if t.op == "ix":
        return "i%d" % t.args[0]
    if t.op == "bv":
        return "k%d" % t.args[0]
    if t.op == "sel":
        return show(t.args[0], d) + "[" + ", ".join(show(x, d) for x in t.args[1:]) + "]"
    if t.op == "pos":
        return "(" + show(t.args[0], d) + " > 0)"
    if t.op == "eq0":
        return "(" + show(t.args[0], d) + " == 0)"
    if t.op == "fn":
        return t.args[0] + "(" + ", ".join(show(x, d) for x in t.args[1:]) + ")"
    return t.op + "(" + ", ".join(show(x, d) for x in t.args) + ")"


# ---------------------------------------------------------------- case / integer division
def case(idx, *elems):
    """elems[idx]"""
    n = num(idx)
    if n is not None and n.denominator == 1:
        k = int(n)
        if -len(elems) <= k < len(elems):
            return elems[k]
    if len(elems) == 1:
        return elems[0]
    if all(e is elems[0] for e in elems):
        return elems[0]
    e0 = elems[0]
    # case(i, a[0,..], a[1,..], ...) -> a[i,..]   (eta)
    if e0.op == "sel" and all(e.op == "sel" and e.args[0] is e0.args[0] and len(e.args) == len(e0.args) for e in elems):
        for p in range(1, len(e0.args)):
            if all(num(e.args[p]) == k for k, e in enumerate(elems)) and \
                    all(e.args[:p] == e0.args[:p] and e.args[p + 1:] == e0.args[p + 1:] for e in elems):
                return mk("sel", *(e0.args[:p] + (idx,) + e0.args[p + 1:]))
    return mk("case", idx, *elems)


def floordiv(a, b):
    na, nb = num(a), num(b)
    if nb is not None and nb != 0:
        if nb == 1 and _intlike(a):
            return a
        if na is not None:
            return const((na / nb).__floor__())
    q, r = _divsplit(a, b)
    if q is not None:
        if num(r) == 0:
            return q
        if r.op in ("ix", "bv", "lv", "tmpix") or (num(r) is not None and num(r) > 0 and (nb is None or num(r) < nb)):
            return q
        if r.op == "fn" and r.args[0] == "mod" and r.args[2] is b:
            return q
    return mk("fn", "floordiv", a, b)


def mod(a, b):
    na, nb = num(a), num(b)
    if nb is not None and nb != 0 and na is not None:
        return const(na - nb * ((na / nb).__floor__()))
    if nb == 1 and _intlike(a):
        return ZERO
    q, r = _divsplit(a, b)
    if q is not None:
        if num(r) == 0:
            return ZERO
        if r.op in ("ix", "bv", "lv", "tmpix") or (num(r) is not None and num(r) > 0 and (nb is None or num(r) < nb)):
            return r
        if r.op == "fn" and r.args[0] == "mod" and r.args[2] is b:
            return r
    return mk("fn", "mod", a, b)


def _intlike(a):
    if a.op in ("ix", "bv", "lv", "dim", "len", "tmpix"):
        return True
    if a.op == "atom":
        return len(a.args) > 1 and a.args[1] in ("int", "dim", "posint")
    if a.op == "poly":
        return all(c.denominator == 1 and all(_intlike(x) and num(e) is not None and num(e).denominator == 1 and num(e) > 0
                                              for x, e in m) for m, c in a.args[0])
    if a.op == "fn":
        return a.args[0] in ("int", "floor", "floordiv", "ceil", "round")
    return False


def _divsplit(a, b):
    """a = q*b + r with r the part not divisible by b (None when nothing is divisible)"""
    bd = to_dict(b)
    if len(bd) != 1:
        return None, None
    (bm, bc), = bd.items()
    q, r = {}, {}
    bdict = dict(bm)
    for m, c in to_dict(a).items():
        md = dict(m)
        ok = True
        for x, e in bdict.items():
            ne = num(md[x]) if x in md else None
            if ne is None or ne < num(e):
                ok = False
                break
        cc = c / bc
        if ok and (bm or cc.denominator == 1) and cc.denominator == 1:
            nm = {}
            for x, e in md.items():
                if x in bdict:
                    d = sub(e, bdict[x])
                    if num(d) != 0:
                        nm[x] = d
                else:
                    nm[x] = e
            if not all(_intlike(x) and num(e) is not None and num(e).denominator == 1 and num(e) > 0 for x, e in nm.items()):
                r[m] = c
                continue
            q[tuple(sorted(nm.items(), key=lambda z: order_key(z[0])))] = cc
        else:
            r[m] = c
    if not q:
        return None, None
    return _poly(q), _poly(r)
