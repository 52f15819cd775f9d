"""Transfer functions for builtins / numpy / scipy functions (registered into npmodel.MODELS)."""
from __future__ import annotations
import re
import time
from fractions import Fraction
from . import terms as tm
from . import npmodel as np
from .npmodel import model, opt, as_array, new_arr, ew, is_arrayish, reduce, dtype_name, opaque_call, shape_arg
from .terms import T, const, mk, IX, TRUE, FALSE, NONE, ZERO, ONE
from .values import *


# ---------------------------------------------------------------- builtins
@model("len")
def _len(I, a, k):
    v = a[0]
    if isinstance(v, Tup):
        return const(len(v.items))
    if isinstance(v, RangeV):
        return np.range_len(I, v)
    if isinstance(v, Ref):
        c = I.cell(v)
        if c.kind in ("list", "dict", "set"):
            if any(isinstance(x, T) and x.op == "lmark" for x in (c.items if c.kind != "dict" else ())):
                return I.fresh("len")
            return const(len(c.items))
        if c.kind == "symlist":
            return c.length
        if c.kind in ("arr", "view"):
            s, e, d, m = as_array(I, v)
            if m is not None:
                return np.masked_count(I, m, s)
            if not s:
                I.raise_("TypeError", "len() of unsized object")
            return s[0]
        if c.kind == "obj":
            m, _ = c.cls.lookup("__len__")
            if isinstance(m, Fn):
                return I.call(Bound(m, v), [], {})
            I.raise_("TypeError", "object of type '%s' has no len()" % c.cls.name)
    if isinstance(v, IterV):
        if v.items is not None:
            return const(len(v.items))
        return v.length
    if isinstance(v, T):
        if v.op == "const" and isinstance(v.args[1], str):
            return const(len(v.args[1]))
        if I.kind(v) in ("int", "float", "bool", "none", "npint"):
            I.raise_("TypeError", "object of type '%s' has no len()" % I.kind(v))
    return I.fresh("len")


@model("range")
def _range(I, a, k):
    for x in a:
        if not isinstance(x, T) or I.kind(x) in ("none", "str"):
            I.raise_("TypeError", "range")
        if I.kind(x) == "float" and (x.op == "atom" or (tm.num(x) is not None and tm.num(x).denominator != 1)):
            I.raise_("TypeError", "'float' object cannot be interpreted as an integer")
    if len(a) == 1:
        return RangeV(ZERO, a[0], ONE)
    if len(a) == 2:
        return RangeV(a[0], a[1], ONE)
    return RangeV(*a)


@model("enumerate")
def _enumerate(I, a, k):
    start = opt(a, k, 1, "start", ZERO)
    it = I.iterate(a[0])
    if it[0] == "known":
        return IterV(items=[Tup((tm.add(const(i), start), x)) for i, x in enumerate(it[1])])
    if it[0] == "sym":
        return IterV(length=it[1], get=lambda i: Tup((tm.add(i, start), it[2](i))))
    return I.unk("enumerate")


@model("zip")
def _zip(I, a, k):
    its = [I.iterate(x) for x in a]
    if all(i[0] == "known" for i in its):
        n = min((len(i[1]) for i in its), default=0)
        return IterV(items=[Tup([i[1][j] for i in its]) for j in range(n)])
    if its and all(i[0] == "guarded" for i in its) and len({tuple(c for c, _ in i[1]) for i in its}) == 1:
        return IterV(guards=[(c, Tup([i[1][j][1] for i in its])) for j, (c, _) in enumerate(its[0][1])])
    if any(i[0] in ("unknown", "guarded") for i in its):
        return I.unk("zip")
    known = [len(i[1]) for i in its if i[0] == "known"]
    syms = [i[1] for i in its if i[0] == "sym"]
    if known:
        n = min(known)
        return IterV(items=[Tup([i[1][j] if i[0] == "known" else i[2](const(j)) for i in its]) for j in range(n)])
    n = syms[0]
    for s in syms[1:]:
        if s is not n:
            n = tm.minmax("min", n, s)
    return IterV(length=n, get=lambda j: Tup([i[2](j) for i in its]))


@model("reversed")
def _reversed(I, a, k):
    it = I.iterate(a[0])
    if it[0] == "known":
        return IterV(items=it[1][::-1])
    if it[0] == "sym":
        return IterV(length=it[1], get=lambda i: it[2](tm.sub(tm.sub(it[1], ONE), i)))
    return I.unk("reversed")


@model("list")
def _list(I, a, k):
    if not a:
        return I.alloc(Lst(()))
    it = I.iterate(a[0])
    if it[0] == "known":
        return I.alloc(Lst(it[1]))
    if it[0] == "sym":
        I.counter += 1
        lv = mk("lv", I.counter)
        I.lvlen[lv] = it[1]
        return I.alloc(SymLst(it[1], lv, it[2](lv)))
    return I.unk("list()")


@model("tuple")
def _tuple(I, a, k):
    if not a:
        return Tup(())
    items = I.known_items(a[0])
    if items is None:
        return _list(I, a, k)
    return Tup(items)


@model("iter")
def _iter(I, a, k):
    return a[0]


@model("next")
def _next(I, a, k):
    items = I.known_items(a[0])
    if items:
        return items[0]
    if items == [] and len(a) > 1:
        return a[1]
    return I.unk("next")


@model("set", "frozenset")
def _set(I, a, k):
    items = I.known_items(a[0]) if a else []
    if items is None:
        return I.unk("set()")
    out = []
    for x in items:
        if not any(x == y for y in out):
            out.append(x)
    return I.alloc(SetC(out))


@model("dict")
def _dict(I, a, k):
    if a:
        d = I.res(a[0])
        if isinstance(d, Ref) and I.cell(d).kind == "dict":
            pass
        else:
            items = I.known_items(d)
            pairs = [I.res(x) for x in items] if items is not None else [None]
            pairs = [x.items if isinstance(x, Tup) else I.cell(x).items if isinstance(x, Ref) and I.cell(x).kind == "list" else None for x in pairs]
            if any(x is None or len(x) != 2 for x in pairs):
                return I.unk("dict of unknown")
            d = I.alloc(Dct(()))
            for x in pairs:
                np.dict_method(I, d, I.cell(d), "update", [I.alloc(Dct([(I.res(x[0]), x[1])]))], {})
            a = [d]
    r = I.alloc(Dct(()))
    np.dict_method(I, r, I.cell(r), "update", a, k)
    return r


def order_lt(I, x, y):
    """True/False/None: x < y for numbers, strings and tuples of them"""
    x, y = I.res(x), I.res(y)
    if isinstance(x, T) and isinstance(y, T):
        if x.op == "const" and y.op == "const" and isinstance(x.args[1], str) and isinstance(y.args[1], str):
            return x.args[1] < y.args[1]
        return I.decide(np.scalar_cmp(I, "Lt", x, y))
    if isinstance(x, Tup) and isinstance(y, Tup):
        for p, q in zip(x.items, y.items):
            d = order_lt(I, p, q)
            if d is None or d:
                return d
            e = order_lt(I, q, p)
            if e is None:
                return None
            if e:
                return False
        return len(x.items) < len(y.items)
    return None


@model("sorted")
def _sorted(I, a, k):
    items = I.known_items(a[0])
    if items is None:
        return I.unk("sorted symbolic")
    key = k.get("key")
    keys = [I.call(key, [x], {}) if key is not None and key is not NONE else x for x in items]
    keys = [I.res(x) for x in keys]
    idx = list(range(len(items)))
    # insertion sort with decided comparisons
    out = []
    for i in idx:
        pos = len(out)
        for j, o in enumerate(out):
            d = order_lt(I, keys[i], keys[o])
            if d is None:
                return I.unk("sorted undecided order")
            if d:
                pos = j
                break
        out.insert(pos, i)
    rev = k.get("reverse")
    if rev is not None and I.truth(rev) is TRUE:
        for j in range(len(out) - 1):
            if order_lt(I, keys[out[j]], keys[out[j + 1]]) is not True:
                return I.unk("sorted: equal keys reversed")
        out.reverse()
    elif rev is not None and I.truth(rev) is not FALSE:
        return I.unk("sorted reverse")
    return I.alloc(Lst([items[i] for i in out]))


@model("sum")
def _sum(I, a, k):
    start = opt(a, k, 1, "start", ZERO)
    it = I.iterate(a[0])
    if it[0] == "known":
        r = start
        for x in it[1]:
            r = I.lift([r, x], lambda p, q: np.binop(I, "Add", p, q))
        return r
    if it[0] == "sym":
        I.counter += 1
        lv = mk("lv", I.counter)
        I.lvlen[lv] = it[1]
        x = it[2](lv)
        if isinstance(x, T):
            e = tm.subst(I.shift_ix(x, 1), {lv: IX[0]})
            return np.binop(I, "Add", start, tm.reduce_term("sum", it[1], e, 0, 1))
    return I.unk("sum")


def _seqminmax(which):
    def f(I, a, k):
        if len(a) == 1:
            if is_arrayish(I, a[0]):
                return reduce(I, a[0], which)
            items = I.known_items(a[0])
            if items is None:
                return I.unk(which)
        else:
            items = list(a)
        items = [I.res(x) for x in items]
        if not items:
            if "default" in k:
                return k["default"]
            I.raise_("ValueError", "empty sequence")
        if all(isinstance(x, T) for x in items) and "key" not in k:
            for x in items:
                if I.kind(x) in ("none",):
                    I.raise_("TypeError", "'<' not supported with None")
            r = tm.minmax(which, *items)
            return I._mm(r) if r.op == which else r
        return I.unk(which + " of values")
    return f


MODELS = np.MODELS
MODELS["min"] = _seqminmax("min")
MODELS["max"] = _seqminmax("max")


@model("all")
def _all(I, a, k):
    items = I.known_items(a[0])
    if items is None:
        it = I.iterate(a[0])
        if it[0] == "sym" and is_arrayish(I, a[0]):
            return reduce(I, a[0], "all")
        return mk("truth", I.unk("all"))
    r = TRUE
    for x in items:
        r = tm.and_(r, I.truth(x))
    return r


@model("any")
def _any(I, a, k):
    items = I.known_items(a[0])
    if items is None:
        if is_arrayish(I, a[0]):
            return reduce(I, a[0], "any")
        return mk("truth", I.unk("any"))
    r = FALSE
    for x in items:
        r = tm.or_(r, I.truth(x))
    return r


@model("abs", "numpy.abs", "numpy.absolute", "numpy.fabs", "math.fabs")
def _abs(I, a, k):
    return ew(I, tm.abs_, [a[0]], as_array(I, a[0])[2])


@model("bool")
def _bool(I, a, k):
    return I.truth(a[0]) if a else FALSE


@model("int", "numpy.int64", "numpy.int_")
def _int(I, a, k):
    if not a:
        return ZERO
    v = a[0]
    if is_arrayish(I, v):
        s, e, d, m = as_array(I, v)
        v = tm.subst(e, {IX[i]: ZERO for i in range(len(s))})
    if isinstance(v, T):
        kd = I.kind(v)
        if kd == "none":
            I.raise_("TypeError", "int() argument must be a number")
        if kd == "bool":
            return tm.ite(I.truth(v), ONE, ZERO) if v.op != "const" else (ONE if v is TRUE else ZERO)
        n = tm.num(v)
        if n is not None:
            return const(int(n))
        if kd == "int":
            return v
        if kd == "str":
            return I.unk("int(str)")
        return tm.fn("int", v)
    if isinstance(v, (Tup, Ref)):
        I.raise_("TypeError", "int() argument")
    return I.unk("int")


@model("float", "numpy.float64")
def _float(I, a, k):
    v = a[0]
    if is_arrayish(I, v):
        s, e, d, m = as_array(I, v)
        return tm.subst(e, {IX[i]: ZERO for i in range(len(s))})
    if isinstance(v, T):
        kd = I.kind(v)
        if kd == "none":
            I.raise_("TypeError", "float() argument must be a number")
        if kd == "bool":
            return tm.ite(I.truth(v), ONE, ZERO)
        if kd == "str":
            if v.op == "const" and v.args[1].strip().lower() in ("nan", "inf", "-inf", "infinity"):
                return const(float(v.args[1]))
            return I.unk("float(str)")
        return v
    I.raise_("TypeError", "float() argument")


@model("round", "numpy.round", "numpy.around", "numpy.rint")
def _round(I, a, k):
    nd = opt(a, k, 1, "decimals", opt(a, k, 1, "ndigits", NONE))
    if nd is not NONE and tm.num(nd) != 0:
        return ew(I, lambda x: mk("fn", "roundn", x, nd), [a[0]], "float")
    return ew(I, lambda x: x if I.kind(x) == "int" else tm.fn("round", x), [a[0]], as_array(I, a[0])[2])


@model("pow", "numpy.power", "math.pow")
def _pow(I, a, k):
    return np.binop(I, "Pow", a[0], a[1])


@model("divmod")
def _divmod(I, a, k):
    return Tup((np.binop(I, "FloorDiv", a[0], a[1]), np.binop(I, "Mod", a[0], a[1])))


@model("str")
def _str(I, a, k):
    return np.to_str(I, a[0], "s") if a else const("")


@model("repr")
def _repr(I, a, k):
    return np.to_str(I, a[0], "r")


@model("print", "input")
def _print(I, a, k):
    return NONE


@model("callable")
def _callable(I, a, k):
    v = a[0]
    if isinstance(v, (Fn, Bound, Partial, Cls, Ext, ExtBound)):
        return TRUE
    if isinstance(v, Ref) and I.cell(v).kind == "obj":
        return TRUE if I.cell(v).cls.lookup("__call__")[0] is not None else FALSE
    return FALSE


@model("slice")
def _slice(I, a, k):
    if len(a) == 1:
        return SliceV(NONE, a[0], NONE)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else NONE)


@model("map")
def _map(I, a, k):
    its = [I.known_items(x) for x in a[1:]]
    if any(i is None for i in its):
        return I.unk("map")
    return IterV(items=[I.call(a[0], list(xs), {}) for xs in zip(*its)])


@model("filter")
def _filter(I, a, k):
    items = I.known_items(a[1])
    if items is None:
        return I.unk("filter")
    out = []
    for x in items:
        t = I.truth(x if a[0] is NONE else I.call(a[0], [x], {}))
        d = I.decide(t)
        if d is None:
            return I.unk("filter")
        if d:
            out.append(x)
    return IterV(items=out)


def type_of(I, v):
    if isinstance(v, T):
        k = I.kind(v)
        return {"int": Ext("int"), "float": Ext("float"), "bool": Ext("bool"), "str": Ext("str"), "none": Ext("NoneType"),
                "npint": Ext("numpy.int64")}.get(k)
    if isinstance(v, Tup):
        return Ext("tuple")
    if isinstance(v, Ref):
        c = I.cell(v)
        if c.kind == "obj":
            return c.cls
        return {"list": Ext("list"), "symlist": Ext("list"), "dict": Ext("dict"), "set": Ext("set"), "arr": Ext("numpy.ndarray"),
                "view": Ext("numpy.ndarray"), "ext": Ext(c.cls) if c.kind == "ext" else None}.get(c.kind)
    if isinstance(v, Exc):
        return v.cls
    if isinstance(v, (Fn, Bound, Partial)):
        return Ext("function")
    if isinstance(v, (Cls, Ext)):
        return Ext("type")
    return None


@model("type")
def _type(I, a, k):
    t = type_of(I, a[0])
    return t if t is not None else I.unk("type()")


SUPER = {"int": {"int", "numbers.Real", "numbers.Number", "numbers.Integral", "numbers.Rational", "numbers.Complex", "object"},
         "bool": {"bool", "int", "numbers.Real", "numbers.Number", "numbers.Integral", "object"},
         "float": {"float", "numbers.Real", "numbers.Number", "numbers.Complex", "object"},
         "str": {"str", "object"}, "NoneType": {"NoneType", "object"}, "tuple": {"tuple", "object", "typing.Tuple", "Sequence"},
         "list": {"list", "object"}, "dict": {"dict", "object"}, "set": {"set", "object"},
         "numpy.ndarray": {"numpy.ndarray", "object"},
         "numpy.int64": {"numpy.int64", "numpy.integer", "numpy.number", "numpy.generic", "numbers.Real", "numbers.Integral",
                         "numbers.Number", "object", "numpy.signedinteger"},
         "function": {"function", "object", "typing.Callable", "collections.abc.Callable"}, "type": {"type", "object"}}
for _n, _t in (("collections.abc.Sequence", ("list", "tuple", "str")), ("collections.abc.Iterable",
               ("list", "tuple", "str", "dict", "set", "numpy.ndarray")), ("collections.abc.Mapping", ("dict",)),
               ("collections.abc.Sized", ("list", "tuple", "str", "dict", "set", "numpy.ndarray")),
               ("collections.abc.MutableSequence", ("list",)), ("typing.Iterable", ("list", "tuple", "str", "dict", "set")),
               ("typing.List", ("list",)), ("typing.Dict", ("dict",)), ("typing.Sequence", ("list", "tuple", "str"))):
    for _x in _t:
        SUPER[_x] = SUPER[_x] | {_n}


def isinst(I, v, c):
    if isinstance(c, Tup):
        return tm.or_(*[isinst(I, v, x) for x in c.items])
    t = type_of(I, v)
    if t is None:
        if isinstance(v, T):
            return mk("isinst", v, c.name if isinstance(c, (Ext, Cls)) else "?")
        return mk("truth", I.unk("isinstance"))
    if isinstance(t, Cls):
        if isinstance(c, Cls):
            return TRUE if t.is_sub(c) else FALSE
        if isinstance(c, Ext):
            if c.name == "object":
                return TRUE
            if c.name in ("typing.Callable", "collections.abc.Callable"):
                return TRUE if t.lookup("__call__")[0] is not None else FALSE
            return TRUE if any(isinstance(b, Ext) and b.name == c.name for b in t.mro) else FALSE
        return FALSE
    if isinstance(c, Cls):
        return FALSE
    if isinstance(c, Ext):
        if c.name == t.name:
            return TRUE
        if np.exc_sub(t.name, c.name) and t.name in np.EXC_PARENT:
            return TRUE
        return TRUE if c.name in SUPER.get(t.name, ()) else FALSE
    return mk("truth", I.unk("isinstance"))


@model("isinstance")
def _isinstance(I, a, k):
    return isinst(I, a[0], a[1])


@model("issubclass")
def _issubclass(I, a, k):
    if isinstance(a[0], Cls) and isinstance(a[1], Cls):
        return TRUE if a[0].is_sub(a[1]) else FALSE
    return mk("truth", I.unk("issubclass"))


@model("hasattr")
def _hasattr(I, a, k):
    if not (isinstance(a[1], T) and a[1].op == "const"):
        return mk("truth", I.unk("hasattr"))
    name = a[1].args[1]
    base = I.snapshot()
    v, alive, entries = I.scope(lambda: I.getattr1(a[0], name))
    ok = alive and not entries
    I.restore(base)
    if ok:
        if isinstance(v, T) and v.op == "unk":
            return mk("truth", v)
        return TRUE
    if not alive and all(isinstance(e.exit, RaiseX) and np.exc_sub(e.exit.exc.name, "AttributeError") for e in entries):
        return FALSE
    return mk("truth", I.unk("hasattr"))


@model("getattr")
def _getattr(I, a, k):
    if not (isinstance(a[1], T) and a[1].op == "const"):
        return I.unk("getattr")
    name = a[1].args[1]
    if len(a) == 2:
        return I.getattr1(a[0], name)
    base = I.snapshot()
    v, alive, entries = I.scope(lambda: I.getattr1(a[0], name))
    if alive and not entries:
        return v
    I.restore(base)
    if not alive:
        return a[2]
    return I.unk("getattr default")


@model("setattr")
def _setattr(I, a, k):
    if not (isinstance(a[1], T) and a[1].op == "const"):
        return I.unk("setattr")
    I.setattr1(a[0], a[1].args[1], a[2])
    return NONE


@model("hash")
def _hash(I, a, k):
    I.emit("nondet", name="id/hash", args=[])
    return I.unk("hash")


@model("id")
def _id(I, a, k):
    I.emit("nondet", name="id/hash", args=[])
    if a and isinstance(a[0], Ref):
        # an arbitrary number, one per object
        return const(7919 * (a[0].id + 1))
    return I.unk("id")


# ---------------------------------------------------------------- stdlib
@model("copy.deepcopy")
def _deepcopy(I, a, k):
    return I.deepcopy(a[0])


@model("copy.copy")
def _copycopy(I, a, k):
    v = a[0]
    if isinstance(v, Ref):
        c = I.cell(v)
        if c.kind == "view":
            s, e, d, m = as_array(I, v)
            return new_arr(I, s, e, d, m)
        r = I.alloc(c)
        I.meta[r.id] = dict(I.meta.get(v.id, {}), shallow_copy_of=v.id)
        return r
    return v


@model("functools.partial")
def _partial(I, a, k):
    return Partial(a[0], list(a[1:]), dict(k))


@model("functools.reduce")
def _freduce(I, a, k):
    items = I.known_items(a[1])
    if items is None:
        return I.unk("reduce")
    r = a[2] if len(a) > 2 else items.pop(0)
    for x in items:
        r = I.call(a[0], [r, x], {})
    return r


@model("warnings.warn")
def _warn(I, a, k):
    I.emit("warn", msg=I.vn(a[0]) if a else NONE)
    return NONE


@model("warnings.catch_warnings", "warnings.simplefilter", "warnings.filterwarnings", "numpy.errstate", "contextlib.suppress",
       "numpy.seterr")
def _noop(I, a, k):
    return NONE


@model("math.radians", "numpy.radians", "numpy.deg2rad")
def _radians(I, a, k):
    return ew(I, lambda x: tm.mul(x, tm.PI, const(Fraction(1, 180))), [a[0]], "float")


@model("math.degrees", "numpy.degrees", "numpy.rad2deg")
def _degrees(I, a, k):
    return ew(I, lambda x: tm.div(tm.mul(x, const(180)), tm.PI), [a[0]], "float")


def _elem(name, *names):
    def f(I, a, k):
        r = ew(I, lambda x: tm.fn(name, boolnum(I, x)), [a[0]], "float")
        return outparam(I, r, k)
    for n in names:
        MODELS[n] = f


def boolnum(I, x):
    return np.boolnum(I, x)


def outparam(I, r, k, where=True):
    out = k.get("out")
    w = k.get("where")
    if out is not None and out is not NONE:
        if isinstance(out, Tup):
            out = out.items[0]
        if w is not None:
            s, e, d, m = as_array(I, out)
            parts = [as_array(I, w), as_array(I, r), as_array(I, out)]
            sh, es, mm = np.broadcast(I, parts)
            r = new_arr(I, sh, tm.ite(I.truth(es[0]), es[1], es[2]), "float")
        np.store_all(I, out, r)
        return out
    if w is not None and w is not TRUE:
        parts = [as_array(I, w), as_array(I, r)]
        sh, es, mm = np.broadcast(I, parts)
        I.emit("uninit", what="where without out")
        return new_arr(I, sh, tm.ite(I.truth(es[0]), es[1], mk("uninit", I.counter)), "float")
    return r


for _n in ("sin", "cos", "tan", "tanh", "sinh", "cosh", "sqrt", "sign"):
    _elem(_n, "numpy." + _n, "math." + _n)
_elem("arctan", "numpy.arctan", "math.atan")
_elem("arcsin", "numpy.arcsin", "math.asin")
_elem("arccos", "numpy.arccos", "math.acos")
_elem("floor", "numpy.floor", "math.floor")
_elem("ceil", "numpy.ceil", "math.ceil")
_elem("int", "numpy.trunc", "math.trunc", "numpy.fix")
_elem("erf", "scipy.special.erf", "math.erf")


for _n in ("arcsinh", "arccosh", "arctanh", "log1p", "expm1"):
    _elem(_n, "numpy." + _n, "math." + _n.replace("arc", "a"))
_elem("expit", "scipy.special.expit")


def _mapped(names, f):
    def g(I, a, k):
        return outparam(I, ew(I, lambda x: f(boolnum(I, x)), [a[0]], "float"), k)
    for n in names:
        MODELS[n] = g


_mapped(("numpy.log10", "math.log10"), lambda x: tm.div(tm.log(x), tm.log(const(10))))
_mapped(("numpy.log2", "math.log2"), lambda x: tm.div(tm.log(x), tm.log(const(2))))
_mapped(("numpy.deg2rad", "numpy.radians", "math.radians"), lambda x: tm.div(tm.mul(x, mk("pi")), const(180)))
_mapped(("numpy.rad2deg", "numpy.degrees", "math.degrees"), lambda x: tm.div(tm.mul(x, const(180)), mk("pi")))
_mapped(("numpy.reciprocal",), lambda x: tm.div(ONE, x))
_mapped(("numpy.exp2",), lambda x: tm.power(const(2), x))


@model("numpy.exp", "math.exp")
def _exp(I, a, k):
    return outparam(I, ew(I, lambda x: tm.exp(boolnum(I, x)), [a[0]], "float"), k)


@model("numpy.log", "math.log")
def _log(I, a, k):
    return outparam(I, ew(I, lambda x: tm.log(boolnum(I, x)), [a[0]], "float"), k)


@model("numpy.arctan2", "math.atan2")
def _atan2(I, a, k):
    return ew(I, lambda x, y: mk("fn", "arctan2", x, y), a[:2], "float")


@model("numpy.square")
def _sq(I, a, k):
    return ew(I, lambda x: tm.mul(x, x), [a[0]], as_array(I, a[0])[2])


@model("numpy.hypot", "math.hypot")
def _hypot(I, a, k):
    return ew(I, lambda x, y: tm.power(tm.add(tm.mul(x, x), tm.mul(y, y)), const(Fraction(1, 2))), a[:2], "float")


for _nm, _op in (("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"), ("divide", "Div"), ("true_divide", "Div"),
                 ("floor_divide", "FloorDiv"), ("mod", "Mod"), ("remainder", "Mod"), ("float_power", "Pow"),
                 ("bitwise_and", "BitAnd"), ("bitwise_or", "BitOr"), ("bitwise_xor", "BitXor")):
    def _f(I, a, k, _op=_op):
        return outparam(I, np.binop(I, _op, a[0], a[1]) if (is_arrayish(I, a[0]) or is_arrayish(I, a[1]) or (
            isinstance(a[0], T) and isinstance(a[1], T))) else np.binop(I, _op, asarr(I, a[0]), a[1]), k)
    MODELS["numpy." + _nm] = _f

for _nm, _op in (("greater", "Gt"), ("greater_equal", "GtE"), ("less", "Lt"), ("less_equal", "LtE"), ("equal", "Eq"),
                 ("not_equal", "NotEq")):
    def _f(I, a, k, _op=_op):
        return ew(I, lambda x, y: np.scalar_cmp(I, _op, x, y), a[:2], "bool")
    MODELS["numpy." + _nm] = _f


@model("numpy.logical_and")
def _land(I, a, k):
    return outparam(I, ew(I, lambda x, y: tm.and_(I.truth(x), I.truth(y)), a[:2], "bool"), k)


@model("numpy.logical_or")
def _lor(I, a, k):
    return outparam(I, ew(I, lambda x, y: tm.or_(I.truth(x), I.truth(y)), a[:2], "bool"), k)


@model("numpy.logical_not", "numpy.invert")
def _lnot(I, a, k):
    return ew(I, lambda x: tm.not_(I.truth(x)), [a[0]], "bool")


@model("numpy.negative")
def _negative(I, a, k):
    return outparam(I, np.unop(I, "USub", a[0]), k)


@model("numpy.maximum", "numpy.fmax")
def _maximum(I, a, k):
    return outparam(I, ew(I, lambda x, y: tm.minmax("max", x, y), a[:2], np.res_dtype(I, a[:2])), k)


@model("numpy.minimum", "numpy.fmin")
def _minimum(I, a, k):
    return outparam(I, ew(I, lambda x, y: tm.minmax("min", x, y), a[:2], np.res_dtype(I, a[:2])), k)


@model("numpy.clip")
def _clip(I, a, k):
    lo, hi = opt(a, k, 1, "a_min", opt(a, k, 1, "min", NONE)), opt(a, k, 2, "a_max", opt(a, k, 2, "max", NONE))
    r = a[0]
    if lo is not NONE:
        r = ew(I, lambda x, y: tm.minmax("max", x, y), [r, lo], as_array(I, r)[2])
    if hi is not NONE:
        r = ew(I, lambda x, y: tm.minmax("min", x, y), [r, hi], as_array(I, r)[2])
    return outparam(I, r, k)


@model("numpy.isnan", "math.isnan")
def _isnan(I, a, k):
    def f(x):
        if x.op == "nan":
            return TRUE
        if tm.is_const(x) or x.op in ("inf",):
            return FALSE
        if x.op == "ite":
            return tm.ite(x.args[0], f(x.args[1]), f(x.args[2]))
        if I.kind(x) == "int":
            return FALSE
        if x.op == "uf" and x.args[0] in I.finite:
            return FALSE
        if x.op == "case":
            ys = [f(y) for y in x.args[1:]]
            if all(y is ys[0] for y in ys):
                return ys[0]
        if x.op == "poly" and I.finite and all(e is ONE and f(b) is FALSE for m, c in x.args[0] for b, e in m):
            return FALSE
        if x.op in ("min", "max", "sel") and I.finite:
            if x.op != "sel" and all(f(y) is FALSE for y in x.args):
                return FALSE
        if x.op == "atom" and I.finite:
            return FALSE
        return mk("isnan", x)
    return ew(I, f, [a[0]], "bool")


@model("numpy.isfinite", "math.isfinite", "numpy.isinf", "math.isinf")
def _isfin(I, a, k):
    return ew(I, lambda x: mk("truth", mk("isfin", x)), [a[0]], "bool")


@model("numpy.isclose", "math.isclose", "numpy.allclose", "numpy.array_equal")
def _isclose(I, a, k):
    def f(x, y):
        c = tm.eq(x, y)
        if c in (TRUE, FALSE):
            return c
        d = I.bounds(tm.sub(x, y))
        m = [abs(v) for t in (x, y) for v in I.bounds(t)[:2] if v is not None]
        if m and not k and ((d[0] is not None and d[0] > 1e-8 + 1e-4 * max(m)) or (d[1] is not None and d[1] < -1e-8 - 1e-4 * max(m))):
            return FALSE
        return mk("truth", mk("isclose", *sorted((x, y), key=tm.order_key)))
    return ew(I, f, a[:2], "bool")


@model("numpy.heaviside")
def _heaviside(I, a, k):
    return ew(I, lambda x, h: tm.ite(tm.eq(x, ZERO), h, tm.ite(tm.lt(ZERO, x), ONE, ZERO)), a[:2], "float")


@model("numpy.isscalar")
def _isscalar(I, a, k):
    v = a[0]
    if isinstance(v, T):
        if v.op in ("unk",):
            return mk("truth", v)
        return FALSE if v is NONE else TRUE
    return FALSE


# ---------------------------------------------------------------- construction
def asarr(I, v, dtype=None):
    s, e, d, m = as_array(I, v)
    if dtype is not None and dtype is not NONE:
        dn = dtype_name(I, dtype)
        if dn:
            if dn in np.NARROW:
                I.emit("narrow", dtype=dn, value=tm.arr_term(s, e))
            e = np.cast_elem(I, e, dn)
            d = dn if dn in ("int", "float", "bool", "uint8") else "int"
    return I.alloc(Arr(s, e, d, m))


@model("numpy.array", "numpy.copy")
def _array(I, a, k):
    if not a and "object" in k:
        a = [k["object"]]
    if not a and "a" in k:
        a = [k["a"]]
    if np.unknown_leaf(I, a[0]):
        return I.unk("array of unknown values")
    if "copy" in k and k["copy"] is not TRUE:
        if k["copy"] is not FALSE and k["copy"] is not NONE:
            return I.unk("array that may be a copy")
        r = _asarray(I, a, k)
    else:
        r = asarr(I, a[0], opt(a, k, 1, "dtype", NONE))
    nd = k.get("ndmin")
    if nd is not None and isinstance(r, Ref):
        n = tm.num(nd) if isinstance(nd, T) else None
        if n is None:
            return I.unk("number of dimensions")
        have = len(as_array(I, r)[0])
        if n > have:
            r = np.getitem(I, r, Tup([NONE] * (int(n) - have) + [SliceV(NONE, NONE, NONE)] * have))
    return r


@model("numpy.ascontiguousarray")
def _ascontiguous(I, a, k):
    if "a" in k:
        a = [k.pop("a")] + list(a)
    r = _asarray(I, a, k)
    if r is a[0] and is_arrayish(I, r):
        c = np.contiguous(I, r)
        if c is None:
            return I.unk("contiguity of an array")
        if not c:
            return asarr(I, r, NONE)
    return r


@model("numpy.asfortranarray")
def _asfortran(I, a, k):
    if "a" in k:
        a = [k.pop("a")] + list(a)
    r = _asarray(I, a, k)
    if r is a[0] and is_arrayish(I, r) and len(as_array(I, r)[0]) > 1:
        return asarr(I, r, NONE)
    return r


@model("numpy.asarray", "numpy.asanyarray", "numpy.require")
def _asarray(I, a, k):
    dt = opt(a, k, 1, "dtype", NONE)
    if np.unknown_leaf(I, a[0]):
        return I.unk("array of unknown values")
    if is_arrayish(I, a[0]) and (dt is NONE or dtype_name(I, dt) == as_array(I, a[0])[2]):
        return a[0]
    return asarr(I, a[0], dt)


@model("numpy.atleast_1d")
def _atleast1(I, a, k):
    s, e, d, m = as_array(I, a[0])
    if not s:
        return I.alloc(Arr((ONE,), e, d))
    return a[0] if is_arrayish(I, a[0]) else asarr(I, a[0])


@model("numpy.atleast_2d")
def _atleast2(I, a, k):
    s, e, d, m = as_array(I, a[0])
    if not s:
        return I.alloc(Arr((ONE, ONE), e, d))
    if len(s) == 1 and m is None and is_arrayish(I, a[0]):
        return np.getitem(I, a[0], Tup([NONE, SliceV(NONE, NONE, NONE)]))
    if len(s) == 1:
        return I.alloc(Arr((ONE,) + s, tm.subst(e, {IX[0]: IX[1]}), d))
    return a[0] if is_arrayish(I, a[0]) else asarr(I, a[0])


def _filled(val, dflt="float"):
    def f(I, a, k):
        s = shape_arg(I, opt(a, k, 0, "shape"))
        if s is None:
            return I.unk("shape")
        dt = opt(a, k, 1, "dtype", NONE)
        dn = dtype_name(I, dt) if dt is not NONE else dflt
        e = val if val is not None else mk("uninit", I.fresh("u").args[0])
        if dn == "bool" and val is not None:
            e = FALSE if val is ZERO else TRUE
        if dn in np.NARROW:
            I.emit("narrow", dtype=dn, value=e)
        check_dims(I, s)
        return I.alloc(Arr(s, e, dn if dn in ("int", "float", "bool", "uint8", "object") else "int"))
    return f


def check_dims(I, s):
    for x in s:
        if I.kind(x) == "float" and (x.op == "atom" or (x.op == "poly" and tm.num(x) is not None and tm.num(x).denominator != 1)):
            I.raise_("TypeError", "'float' object cannot be interpreted as an integer")
        if I.kind(x) in ("none", "str"):
            I.raise_("TypeError", "shape")


MODELS["numpy.zeros"] = _filled(ZERO)
MODELS["numpy.ones"] = _filled(ONE)
MODELS["numpy.empty"] = _filled(None)


@model("numpy.full")
def _full(I, a, k):
    s = shape_arg(I, opt(a, k, 0, "shape"))
    v = opt(a, k, 1, "fill_value")
    if s is None:
        return I.unk("shape")
    check_dims(I, s)
    dt = opt(a, k, 2, "dtype", NONE)
    vs, ve, vd, vm = as_array(I, v)
    if dt is not NONE:
        vd = dtype_name(I, dt)
        ve = np.cast_elem(I, ve, vd)
    if vs:
        off = len(s) - len(vs)
        ve = tm.subst(ve, {IX[j]: IX[j + off] for j in range(len(vs))})
    if ve.op == "nan":
        vd = "float"
    return I.alloc(Arr(s, ve, vd))


def _like(val):
    def f(I, a, k):
        s, e, d, m = as_array(I, a[0])
        dt = opt(a, k, 2 if val == "full" else 1, "dtype", NONE)
        dn = dtype_name(I, dt) if dt is not NONE else d
        if val == "full":
            v = as_array(I, opt(a, k, 1, "fill_value"))[1]
        elif val is None:
            v = mk("uninit", I.fresh("u").args[0])
        else:
            v = val
        if dn == "bool" and val in (ZERO, ONE):
            v = FALSE if val is ZERO else TRUE
        sh = k.get("shape")
        if sh is not None:
            s = shape_arg(I, sh)
        if not s:
            return v
        return I.alloc(Arr(s, v, dn, m))
    return f


MODELS["numpy.zeros_like"] = _like(ZERO)
MODELS["numpy.ones_like"] = _like(ONE)
MODELS["numpy.empty_like"] = _like(None)
MODELS["numpy.full_like"] = _like("full")


@model("numpy.eye", "numpy.identity")
def _eye(I, a, k):
    n = a[0]
    return I.alloc(Arr((n, n), tm.ite(tm.eq(IX[0], IX[1]), ONE, ZERO), "float"))


@model("numpy.arange")
def _arange(I, a, k):
    if len(a) == 1:
        st, sp, step = ZERO, a[0], ONE
    else:
        st, sp = a[0], a[1]
        step = a[2] if len(a) > 2 else k.get("step", ONE)
    for x in (st, sp, step):
        if not isinstance(x, T):
            return I.unk("arange")
    n = tm.sub(sp, st)
    if tm.num(step) != 1:
        nn = tm.num(n)
        n = const(len(range(0, int(nn), int(tm.num(step))))) if nn is not None and tm.num(step) is not None and \
            nn.denominator == 1 and tm.num(step).denominator == 1 else tm.fn("ceil", tm.div(n, step))
    elif I.kind(n) == "float":
        n = tm.fn("ceil", n)
    return I.alloc(Arr((n,), tm.add(st, tm.mul(IX[0], step)), "int" if I.kind(tm.add(st, step)) == "int" else "float"))


@model("numpy.linspace")
def _linspace(I, a, k):
    st, sp = opt(a, k, 0, "start"), opt(a, k, 1, "stop")
    n = opt(a, k, 2, "num", const(50))
    endpoint = opt(a, k, 3, "endpoint", TRUE)
    if not isinstance(n, T):
        if is_arrayish(I, n):
            s, e, d, m = as_array(I, n)
            n = tm.subst(e, {IX[j]: ZERO for j in range(len(s))})
        else:
            I.raise_("TypeError", "num must be an integer")
    if I.kind(n) == "float" and (n.op == "atom" or tm.num(n) is not None):
        I.raise_("TypeError", "'float' object cannot be interpreted as an integer")
    if I.kind(n) in ("none", "str"):
        I.raise_("TypeError", "num must be an integer")
    for x in (st, sp):
        if isinstance(x, T) and I.kind(x) in ("none", "str"):
            I.raise_("TypeError", "linspace bounds")
    ps = [as_array(I, st), as_array(I, sp)]
    sh, (e1, e2), m = np.broadcast(I, ps)
    mp = {IX[j]: IX[j + 1] for j in range(len(sh))}
    e1, e2 = tm.subst(e1, mp), tm.subst(e2, mp)
    if tm.num(n) == 1:
        e = e1
    else:
        den = n if endpoint is FALSE else tm.sub(n, ONE)
        e = tm.add(e1, tm.div(tm.mul(IX[0], tm.sub(e2, e1)), den))
    r = I.alloc(Arr((n,) + sh, e, "float"))
    rs = opt(a, k, 4, "retstep", FALSE)
    if rs is TRUE:
        return Tup((r, tm.div(tm.sub(e2, e1), tm.sub(n, ONE))))
    return r


@model("numpy.meshgrid")
def _meshgrid(I, a, k):
    ij = k.get("indexing")
    xy = not (ij is not None and ij.op == "const" and ij.args[1] == "ij")
    parts = [as_array(I, x) for x in a]
    n = len(parts)
    order = list(range(n))
    if xy and n >= 2:
        order[0], order[1] = 1, 0
    shape = [None] * n
    for j, p in enumerate(parts):
        shape[order[j]] = p[0][0]
    out = []
    for j, p in enumerate(parts):
        out.append(I.alloc(Arr(shape, tm.subst(p[1], {IX[0]: IX[order[j]]}), p[2])))
    return I.alloc(Lst(out))


@model("numpy.concatenate")
def _concat(I, a, k):
    ax = opt(a, k, 1, "axis", ZERO)
    if ax is NONE:
        items = I.known_items(a[0])
        return np.concat(I, I.alloc(Lst([np.reshape(I, asarr(I, x), const(-1)) for x in items])), 0)
    n = tm.num(ax)
    if n is None:
        return I.unk("concatenate axis")
    return np.concat(I, a[0], int(n))


@model("numpy.append")
def _append(I, a, k):
    ax = opt(a, k, 2, "axis", NONE)
    xs = [a[0], a[1]]
    if ax is NONE:
        ys = []
        for x in xs:
            s, e, d, m = as_array(I, x)
            ys.append(I.alloc(Arr((ONE,), e, d)) if not s else (x if len(s) == 1 else np.reshape(I, asarr(I, x), const(-1))))
        return np.concat(I, I.alloc(Lst(ys)), 0)
    return np.concat(I, I.alloc(Lst(xs)), int(tm.num(ax)))


@model("numpy.vstack", "numpy.row_stack")
def _vstack(I, a, k):
    items = I.known_items(a[0])
    if items is None:
        return I.unk("vstack")
    return np.concat(I, I.alloc(Lst([_atleast2(I, [x], {}) for x in items])), 0)


@model("numpy.hstack")
def _hstack(I, a, k):
    items = I.known_items(a[0])
    if items is None:
        return I.unk("hstack")
    xs = [_atleast1(I, [x], {}) for x in items]
    return np.concat(I, I.alloc(Lst(xs)), 0 if len(as_array(I, xs[0])[0]) == 1 else 1)


@model("numpy.dstack")
def _dstack(I, a, k):
    items = I.known_items(a[0])
    if items is None:
        return I.unk("dstack")
    out = []
    for x in items:
        s, e, d, m = as_array(I, x)
        if len(s) == 1:
            s, e = (ONE,) + s, tm.subst(e, {IX[0]: IX[1]})
        if len(s) == 2:
            out.append(I.alloc(Arr(s + (ONE,), e, d)))
        else:
            out.append(x)
    return np.concat(I, I.alloc(Lst(out)), 2)


@model("numpy.column_stack")
def _colstack(I, a, k):
    items = I.known_items(a[0])
    if items is None:
        return I.unk("column_stack")
    out = []
    for x in items:
        s, e, d, m = as_array(I, x)
        out.append(I.alloc(Arr(s + (ONE,), e, d)) if len(s) == 1 else x)
    return np.concat(I, I.alloc(Lst(out)), 1)


@model("numpy.stack")
def _stack(I, a, k):
    ax = opt(a, k, 1, "axis", ZERO)
    return np.stack(I, a[0], int(tm.num(ax)))


@model("numpy.repeat")
def _repeat(I, a, k):
    return opaque_arr(I, "numpy.repeat", a, k)


@model("numpy.tile")
def _tile(I, a, k):
    s, e, d, m = as_array(I, a[0])
    reps = shape_arg(I, a[1])
    if reps is not None and len(reps) <= len(s) or not s:
        pass
    return opaque_arr(I, "numpy.tile", a, k)


def opaque_arr(I, name, a, k, shape=None):
    return opaque_call(I, name, a, k)


@model("numpy.reshape")
def _reshape(I, a, k):
    v = a[0] if is_arrayish(I, a[0]) else asarr(I, a[0])
    s = opt(a, k, 1, "newshape", k.get("shape"))
    kw = {"order": opt(a, k, 2, "order")} if opt(a, k, 2, "order") is not None else {}
    return np.arr_method(I, v, "reshape", [s], kw) if isinstance(v, Ref) else np.reshape(I, v, s)


@model("numpy.ravel")
def _ravel(I, a, k):
    return np.reshape(I, a[0], const(-1))


@model("numpy.transpose")
def _transpose(I, a, k):
    ax = opt(a, k, 1, "axes", NONE)
    v = a[0] if is_arrayish(I, a[0]) else asarr(I, a[0])
    if ax is NONE:
        return np.transpose(I, v)
    return np.transpose(I, v, [int(tm.num(x)) for x in I.known_items(ax)])


@model("numpy.squeeze")
def _squeeze(I, a, k):
    return np.squeeze(I, a[0], opt(a, k, 1, "axis", NONE))


@model("numpy.expand_dims")
def _expand(I, a, k):
    v = a[0] if is_arrayish(I, a[0]) else asarr(I, a[0])
    nd = len(as_array(I, v)[0])
    ax = opt(a, k, 1, "axis")
    ax = I.known_items(ax) if isinstance(I.res(ax), (Tup, Ref)) else [ax]
    if ax is None or any(not isinstance(x, T) or tm.num(x) is None for x in ax):
        return I.unk("expand_dims")
    n = nd + len(ax)
    ax = [int(tm.num(x)) % n for x in ax]
    return np.getitem(I, v, Tup([NONE if j in ax else SliceV(NONE, NONE, NONE) for j in range(n)]))


@model("numpy.moveaxis")
def _moveaxis(I, a, k):
    v = a[0] if is_arrayish(I, a[0]) else asarr(I, a[0])
    nd = len(as_array(I, v)[0])
    src, dst = opt(a, k, 1, "source"), opt(a, k, 2, "destination")
    if not all(isinstance(x, T) and tm.num(x) is not None for x in (src, dst)):
        return I.unk("moveaxis")
    src, dst = int(tm.num(src)) % nd, int(tm.num(dst)) % nd
    order = [j for j in range(nd) if j != src]
    order.insert(dst, src)
    return np.transpose(I, v, order)


def flip_axes(I, v, axes):
    s = np.shape_of(I, v)
    keys = [SliceV(NONE, NONE, const(-1)) if j in axes else SliceV(NONE, NONE, NONE) for j in range(len(s))]
    return np.getitem(I, v if is_arrayish(I, v) else asarr(I, v), Tup(keys))


@model("numpy.flip")
def _flip(I, a, k):
    ax = opt(a, k, 1, "axis", NONE)
    n = len(np.shape_of(I, a[0]))
    if ax is NONE:
        return flip_axes(I, a[0], set(range(n)))
    items = [ax] if isinstance(ax, T) else I.known_items(ax)
    return flip_axes(I, a[0], {int(tm.num(x)) % n for x in items})


@model("numpy.flipud")
def _flipud(I, a, k):
    return flip_axes(I, a[0], {0})


@model("numpy.fliplr")
def _fliplr(I, a, k):
    return flip_axes(I, a[0], {1})


@model("numpy.fill_diagonal")
def _filldiag(I, a, k):
    s, e, d, m = as_array(I, a[0])
    val = a[1]
    np.log_write(I, a[0])
    if len(s) != 2:
        return I.unk("fill_diagonal")
    root, sh, imap = np.root_of(I, a[0])
    c = I.cell(root)
    if c.kind != "arr":
        return NONE
    vs, ve, vd, vm = as_array(I, val)
    # value cycles along the diagonal; index on the diagonal = row index
    nd = len(c.shape)
    # invert imap (rows -> v0, cols -> v1)
    sol = {}
    conds = []
    for dd in range(nd):
        mterm = imap[dd]
        ixs = [x for x in tm.walk(mterm) if x.op == "ix"]
        if not ixs:
            conds.append(tm.eq(IX[dd], mterm))
            continue
        x = ixs[0]
        dct = tm.to_dict(mterm)
        kf = dct.get(((x, ONE),))
        rest = tm._poly({q: w for q, w in dct.items() if q != ((x, ONE),)})
        if kf is None or len(ixs) > 1:
            return I.unk("fill_diagonal view")
        sol[x] = tm.div(tm.sub(IX[dd], rest), const(kf))
    if IX[0] not in sol or IX[1] not in sol:
        return I.unk("fill_diagonal view")
    r, cc = sol[IX[0]], sol[IX[1]]
    if vs:
        ve = tm.subst(ve, {IX[0]: r})
    conds.append(tm.eq(r, cc))
    cond = I.simp_ix(tm.and_(*conds), c.shape)
    ve = np.cast_store(I, c.dtype, ve)
    I.setcell(root, Arr(c.shape, np.put(I, c.shape, cond, ve, c.elem), c.dtype))
    return NONE


@model("numpy.diag", "numpy.diagonal")
def _diag(I, a, k):
    s, e, d, m = as_array(I, a[0])
    if tm.num(opt(a, k, 1, "k", opt(a, k, 1, "offset", ZERO))) != 0 or len(s) not in (1, 2):
        return I.unk("diagonal")
    if len(s) == 2:
        n = s[0] if s[0] is s[1] or I.decide(tm.le(s[0], s[1])) else (s[1] if I.decide(tm.le(s[1], s[0])) else tm.minmax("min", *s))
        return I.alloc(Arr((n,), tm.subst(e, {IX[1]: IX[0]}), d))
    return I.alloc(Arr((s[0], s[0]), tm.ite(tm.eq(IX[0], IX[1]), e, ZERO), d))


@model("numpy.where")
def _where(I, a, k):
    if len(a) == 1:
        v = a[0] if is_arrayish(I, a[0]) else asarr(I, a[0])
        return np.NonZero(ew(I, lambda e: I.truth(e), [v], "bool"))
    return ew(I, lambda c, x, y: tm.ite(I.truth(c), boolnum(I, x), boolnum(I, y)), a[:3], np.res_dtype(I, a[1:3]))


@model("numpy.nonzero")
def _nonzero(I, a, k):
    return _where(I, a[:1], {})


@model("numpy.argwhere")
def _argwhere(I, a, k):
    return opaque_call(I, "numpy.argwhere", a, k)


# ---------------------------------------------------------------- reductions
def _red(name):
    def f(I, a, k):
        v = a[0]
        if isinstance(v, T) and I.kind(v) == "none":
            if name in ("min", "max", "sum"):
                I.raise_("TypeError", "reduction of None")
        ax = opt(a, k, 1, "axis", NONE)
        kd = k.get("keepdims", FALSE)
        if isinstance(v, Ref) and I.cell(v).kind == "symlist":
            v = asarr(I, v)
        r = reduce(I, v, name, ax, kd is TRUE)
        if name in ("min", "max") and isinstance(r, T) and r.op == "red":
            r = minmax_affine(I, r)
        return r
    return f


def minmax_affine(I, r):
    return r


for _n in ("sum", "min", "max", "mean", "prod", "any", "all", "std", "var", "median", "argmin", "argmax", "ptp"):
    MODELS["numpy." + _n] = _red(_n)
MODELS["numpy.amin"] = MODELS["numpy.min"]
MODELS["numpy.amax"] = MODELS["numpy.max"]
MODELS["numpy.nanmin"] = MODELS["numpy.min"]
MODELS["numpy.nanmax"] = MODELS["numpy.max"]
MODELS["numpy.product"] = MODELS["numpy.prod"]
MODELS["numpy.average"] = MODELS["numpy.mean"]


@model("numpy.sort")
def _sort(I, a, k):
    v = a[0]
    s, e, d, m = as_array(I, v)
    if len(s) == 1 and tm.num(s[0]) is not None and tm.num(s[0]) <= 16:
        xs = [tm.subst(e, {IX[0]: const(j)}) for j in range(int(tm.num(s[0])))]
        if len(xs) == 2:
            lo, hi = tm.minmax("min", *xs), tm.minmax("max", *xs)
            lo = I._mm(lo) if lo.op == "min" else lo
            hi = I._mm(hi) if hi.op == "max" else hi
            return I.alloc(Arr(s, np.case(IX[0], lo, hi), d))
        out = []
        ok = True
        for x in xs:
            pos = len(out)
            for j, o in enumerate(out):
                r = I.decide(tm.lt(x, o))
                if r is None:
                    ok = False
                    break
                if r:
                    pos = j
                    break
            if not ok:
                break
            out.insert(pos, x)
        if ok:
            return I.alloc(Arr(s, np.case(IX[0], *out), d))
    return I.alloc(Arr(s, tm.sel(mk("uf", "sort", (tm.arr_term(s, e),), ()), *IX[:len(s)]), d))


@model("numpy.argsort", "numpy.lexsort")
def _argsort(I, a, k):
    s, e, d, m = as_array(I, a[0])
    if len(s) == 1 and tm.num(s[0]) is not None and tm.num(s[0]) <= 8:
        xs = [tm.subst(e, {IX[0]: const(j)}) for j in range(int(tm.num(s[0])))]
        out = []
        for i, x in enumerate(xs):
            pos = len(out)
            for j, o in enumerate(out):
                r = I.decide(tm.lt(x, xs[o]))
                if r is None:
                    return I.alloc(Arr(s, tm.sel(mk("uf", "argsort", (tm.arr_term(s, e),), ()), IX[0]), "int"))
                if r:
                    pos = j
                    break
            out.insert(pos, i)
        return I.alloc(Arr(s, np.case(IX[0], *[const(i) for i in out]), "int"))
    return I.alloc(Arr(s, tm.sel(mk("uf", "argsort", (tm.arr_term(s, e),), ()), *IX[:len(s)]), "int"))


def unique_consts(I, s, e, d, m):
    """the distinct values of a small array that can only hold known numbers: a selection of those that occur"""
    dims = [tm.num(x) for x in s]
    if any(x is None or x > 32 for x in dims):
        return None
    import itertools
    idx = list(itertools.product(*[range(int(x)) for x in dims]))
    if len(idx) > 32:
        return None
    found = {}

    def leaves(t, cond):
        if t.op in ("ite", "phi"):
            return leaves(t.args[1], tm.and_(cond, t.args[0])) and leaves(t.args[2], tm.and_(cond, tm.not_(t.args[0])))
        n = tm.num(t)
        if n is None:
            return False
        found.setdefault(n, []).append(cond)
        return True
    for i in idx:
        mp = {IX[j]: const(q) for j, q in enumerate(i)}
        if not leaves(tm.subst(e, mp), TRUE if m is None else I.truth(tm.subst(m, mp))):
            return None
    vals = sorted(found)
    if not vals or len(vals) > 16:
        return None
    conds = [tm.or_(*found[v]) for v in vals]
    if all(I.decide(c) is True for c in conds):
        return I.alloc(Arr((const(len(vals)),), tm.case(IX[0], *[const(v) for v in vals]), d))
    mask = tm.case(IX[0], *conds)
    I.masknd[mask] = 1
    return I.alloc(Arr((const(len(vals)),), tm.case(IX[0], *[const(v) for v in vals]), d, mask))


@model("numpy.unique")
def _unique(I, a, k):
    s, e, d, m = as_array(I, a[0])
    r = unique_consts(I, s, e, d, m) if not a[1:] and not k else None
    if r is not None:
        return r
    if m is not None:
        return I.unk("unique of a selection")
    r = mk("uf", "unique", (tm.arr_term(s, e),), ())
    return I.alloc(Arr((mk("len", r),), tm.sel(r, IX[0]), d))


@model("numpy.diff")
def _diff(I, a, k):
    n = opt(a, k, 1, "n", ONE)
    ax = opt(a, k, 2, "axis", const(-1))
    s, e, d, m = as_array(I, a[0])
    if tm.num(n) != 1 or not s:
        return I.unk("diff")
    x = int(tm.num(ax)) % len(s)
    e2 = tm.sub(tm.subst(e, {IX[x]: tm.add(IX[x], ONE)}), e)
    s2 = list(s)
    s2[x] = tm.sub(s[x], ONE)
    return I.alloc(Arr(s2, e2, d))


@model("numpy.cumsum")
def _cumsum(I, a, k):
    s, e, d, m = as_array(I, a[0])
    ax = opt(a, k, 1, "axis", NONE)
    if len(s) == 1:
        n = tm.num(s[0])
        if n is not None and n <= 16:
            acc, out = ZERO, []
            for j in range(int(n)):
                acc = tm.add(acc, tm.subst(e, {IX[0]: const(j)}))
                out.append(acc)
            return I.alloc(Arr(s, np.case(IX[0], *out), d))
        b = tm.max_bv(e) + 1
        return I.alloc(Arr(s, mk("red", "sum", tm.add(IX[0], ONE), b, tm.subst(e, {IX[0]: mk("bv", b)})), d))
    return I.unk("cumsum")


@model("numpy.gradient")
def _gradient(I, a, k):
    return opaque_like(I, "numpy.gradient", a, k)


def opaque_like(I, name, a, k, i=0):
    """opaque function returning an array of the shape of argument i"""
    s, e, d, m = as_array(I, a[i])
    r = opaque_call(I, name, a, k)
    if not s:
        return r
    return I.alloc(Arr(s, tm.sel(r, *IX[:len(s)]), "float"))


@model("numpy.dot", "numpy.matmul", "numpy.inner")
def _dot(I, a, k):
    return np.dot(I, a[0], a[1])


@model("numpy.cross")
def _cross(I, a, k):
    pa, pb = as_array(I, a[0]), as_array(I, a[1])
    if not pa[0] or not pb[0]:
        return I.unk("cross of unknown")
    if tm.num(pa[0][-1]) == 2 and tm.num(pb[0][-1]) == 2:
        def comp(p, j):
            n = len(p[0])
            return (p[0][:-1], tm.subst(p[1], {IX[n - 1]: const(j)}), p[2], p[3])
        sh, (a0, a1, b0, b1), m = np.broadcast(I, [comp(pa, 0), comp(pa, 1), comp(pb, 0), comp(pb, 1)])
        e = tm.sub(tm.mul(a0, b1), tm.mul(a1, b0))
        return new_arr(I, sh, e, "float", m)
    return opaque_call(I, "numpy.cross", a, k)


@model("numpy.outer")
def _outer(I, a, k):
    pa, pb = as_array(I, a[0]), as_array(I, a[1])
    return I.alloc(Arr((pa[0][0], pb[0][0]), tm.mul(pa[1], tm.subst(pb[1], {IX[0]: IX[1]})), "float"))


@model("numpy.linalg.norm")
def _norm(I, a, k):
    ax = opt(a, k, 2, "axis", NONE)
    s, e, d, m = as_array(I, a[0])
    o = opt(a, k, 1, "ord", NONE)
    if o is not NONE and tm.num(o) != 2:
        return I.unk("norm ord")
    sq = new_arr(I, s, tm.mul(e, e), "float", m)
    r = reduce(I, sq, "sum", ax, k.get("keepdims", FALSE) is TRUE)
    return ew(I, lambda x: tm.power(x, const(Fraction(1, 2))), [r], "float")


@model("numpy.shape")
def _shape(I, a, k):
    return Tup(np.shape_of(I, a[0]))


@model("numpy.ndim")
def _ndim(I, a, k):
    return const(len(np.shape_of(I, a[0])))


@model("numpy.size")
def _size(I, a, k):
    s = np.shape_of(I, a[0])
    return tm.mul(*s) if s else ONE


@model("numpy.take")
def _take(I, a, k):
    ax = opt(a, k, 2, "axis", NONE)
    n = 0 if ax is NONE else int(tm.num(ax))
    return np.getitem(I, a[0], Tup([SliceV(NONE, NONE, NONE)] * n + [a[1]]))


@model("numpy.broadcast_to")
def _bto(I, a, k):
    s = shape_arg(I, a[1])
    e = np.broadcast_to(I, as_array(I, a[0]), s)
    return I.alloc(Arr(s, e, as_array(I, a[0])[2]))


@model("numpy.roll")
def _roll(I, a, k):
    s, e, d, m = as_array(I, a[0])
    ax = opt(a, k, 2, "axis", NONE)
    if ax is NONE and len(s) != 1:
        return I.unk("roll")
    x = 0 if ax is NONE else int(tm.num(ax)) % len(s)
    sh = a[1]
    if not isinstance(sh, T):
        return I.unk("roll")
    return I.alloc(Arr(s, tm.subst(e, {IX[x]: tm.mod(tm.sub(IX[x], sh), s[x])}), d))


@model("numpy.rot90")
def _rot90(I, a, k):
    n = opt(a, k, 1, "k", ONE)
    r = a[0]
    for _ in range(int(tm.num(n)) % 4):
        r = flip_axes(I, np.transpose(I, r), {0})
    return r


@model("numpy.pad")
def _pad(I, a, k):
    return opaque_call(I, "numpy.pad", a, k)


@model("numpy.interp")
def _interp(I, a, k):
    return opaque_like(I, "numpy.interp", a, k)


# ---------------------------------------------------------------- random / scipy / others
@model("numpy.random.default_rng", "numpy.random.Generator", "numpy.random.RandomState")
def _default_rng(I, a, k):
    fr = I.frames[-1] if I.frames else {}
    if a and isinstance(a[0], Ref) and I.cell(a[0]).kind == "ext" and I.cell(a[0]).cls == "numpy.random.Generator":
        return a[0]
    I.counter += 1
    infn = fr.get("fn") is not None
    r = I.alloc(ExtObj("numpy.random.Generator", {"name": "rng%d@%s:%s" % (I.counter, I.loc[0] if I.loc else "?", I.loc[1] if I.loc else 0)}),
                origin="rng", infn=infn, func=fr.get("qual"), loc=I.loc)
    I.emit("rng-create", ref=r.id, infn=infn, func=fr.get("qual"))
    return r


LINE_FILTERS = {"gaussian_filter1d": (("sigma", "axis", "order", "output", "mode", "cval", "truncate", "radius"),
                                      {"axis": const(-1), "order": ZERO, "mode": const("reflect"), "cval": ZERO, "truncate": const(4), "radius": NONE}),
                "convolve1d": (("weights", "axis", "output", "mode", "cval", "origin"),
                               {"axis": const(-1), "mode": const("reflect"), "cval": ZERO, "origin": ZERO}),
                "correlate1d": (("weights", "axis", "output", "mode", "cval", "origin"),
                                {"axis": const(-1), "mode": const("reflect"), "cval": ZERO, "origin": ZERO}),
                "uniform_filter1d": (("size", "axis", "output", "mode", "cval", "origin"),
                                     {"axis": const(-1), "mode": const("reflect"), "cval": ZERO, "origin": ZERO})}


def line_term(n, elem, axis, nd):
    """1D array term of the line through the current position along an axis"""
    b = tm.max_bv(elem) + 1
    body = tm.subst(elem, {IX[axis]: mk("bv", b)})
    if body.op == "sel" and body.args[-1] is mk("bv", b) and not any(x is mk("bv", b) for y in body.args[:-1] for x in tm.walk(y)):
        return tm.sel(body.args[0], *body.args[1:-1]) if len(body.args) > 2 else body.args[0]
    return mk("arr", (n,), b, body)


def _line_filter(name):
    ps, df = LINE_FILTERS[name]

    def f(I, a, k):
        a, b = list(a), dict(df)
        if "input" in k:
            inp = k["input"]
            rest = a
        else:
            inp, rest = a[0], a[1:]
        for q, v in zip(ps, rest):
            b[q] = v
        for q, v in k.items():
            if q != "input":
                if q not in ps:
                    I.raise_("TypeError", "unexpected keyword argument " + q)
                b[q] = v
        s, e, d, m = as_array(I, inp)
        out = b.pop("output", NONE)
        ax = tm.num(b["axis"]) if isinstance(b["axis"], T) else None
        I.emit("filter", inp=tm.arr_term(s, e), name=name, kw={q: I.vn(v) for q, v in b.items()}, shape=s, raw=inp)
        if ax is None or not s or m is not None:
            return I.unk("filter axis")
        ax = int(ax) % len(s)
        del b["axis"]
        if "cval" in b and tm.pyval(b["mode"]) != "constant":
            b["cval"] = ZERO
        ps2 = tuple(mk("kw", q, I.vn(v)) for q, v in sorted(b.items()))
        r = tm.sel(mk("uf", name, (line_term(s[ax], e, ax, len(s)),) + ps2, ()), IX[ax])
        res = new_arr(I, s, r, "float")
        if isinstance(out, Ref) and I.cell(out).kind in ("arr", "view"):
            np.store_all(I, out, res)
        return res
    return f


for _n in LINE_FILTERS:
    model("scipy.ndimage." + _n, "scipy.ndimage.filters." + _n)(_line_filter(_n))


@model("scipy.ndimage.gaussian_filter", "scipy.ndimage.median_filter", "scipy.ndimage.uniform_filter")
def _filter(I, a, k):
    a = list(a)
    if not a and "input" in k:
        a = [k["input"]]
    out = k.get("output", NONE)
    s, e, d, m = as_array(I, a[0])
    I.emit("filter", inp=tm.arr_term(s, e), name="filter", kw={q: I.vn(v) for q, v in k.items()}, shape=s, raw=a[0])
    rest = [I.vn(x) for x in a[1:]] + [mk("kw", q, I.vn(v)) for q, v in sorted(k.items()) if q not in ("input", "output")]
    r = mk("uf", "filter", (tm.arr_term(s, e),) + tuple(rest), ())
    res = new_arr(I, s, tm.sel(r, *IX[:len(s)]), "float")
    if out is not NONE and isinstance(out, Ref):
        np.store_all(I, out, res)
    return res


@model("colorednoise.powerlaw_psd_gaussian")
def _cn(I, a, k):
    exponent = opt(a, k, 0, "exponent")
    size = opt(a, k, 1, "size")
    rs = opt(a, k, 3, "random_state", NONE)
    gen = None
    if isinstance(rs, Ref) and I.cell(rs).kind == "ext":
        gen = rs.id
        nm = I.cell(rs).data["name"]
    elif isinstance(rs, Ref) and I.cell(rs).kind == "obj":
        return I.call(I.getattr(rs, "powerlaw"), [exponent, size, opt(a, k, 2, "fmin", ZERO)], {})
    else:
        nm = "global"
        if rs is NONE:
            I.emit("nondet", name="colorednoise.powerlaw_psd_gaussian without random_state", args=[])
        else:
            I.emit("nondet", name="colorednoise.powerlaw_psd_gaussian with seed", args=[])
    I.counter += 1
    sh = shape_arg(I, size)
    av = (("exponent", I.vn(exponent)), ("fmin", I.vn(opt(a, k, 2, "fmin", ZERO))))
    d = mk("draw", nm, I.counter, "powerlaw", av)
    I.emit("draw", gen=gen, method="powerlaw", args=dict(av, size=I.vn(size)), raw=dict(size=size, exponent=exponent), term=d)
    if sh is None:
        return I.unk("powerlaw size")
    return I.alloc(Arr(sh, tm.sel(d, *IX[:len(sh)]), "float"))


# ---------------------------------------------------------------- intrinsics used by the analysis harnesses
@model("intrinsic.event")
def _i_event(I, a, k):
    I.emit("event", name=tm.pyval(a[0]), args=[I.vn(x) for x in a[1:]], kw={q: I.vn(v) for q, v in k.items()},
           raw=dict(k), rawargs=list(a[1:]))
    return NONE


@model("intrinsic.arr")
def _i_arr(I, a, k):
    """__arr__(name, shape...) opaque array; origin recorded"""
    name = tm.pyval(a[0])
    shape = shape_arg(I, a[1]) if len(a) > 1 else [mk("atom", name + ".n", "dim")]
    kind = tm.pyval(k["kind"]) if "kind" in k else None
    b = mk("atom", name) if kind is None else mk("atom", name, kind)
    r = I.alloc(Arr(shape, tm.sel(b, *IX[:len(shape)]), tm.pyval(k["dtype"]) if "dtype" in k else "float"), origin="harness", label=name)
    return r


@model("intrinsic.dim")
def _i_dim(I, a, k):
    return mk("atom", tm.pyval(a[0]), "dim")


@model("intrinsic.atom")
def _i_atom(I, a, k):
    return mk("atom", tm.pyval(a[0]), tm.pyval(a[1]) if len(a) > 1 else "float")


@model("intrinsic.op")
def _i_op(I, a, k):
    return mk("uf", tm.pyval(a[0]), tuple(I.vn(x) for x in a[1:]), ())


@model("intrinsic.oparr")
def _i_oparr(I, a, k):
    """__oparr__(name, shape, *deps): array that is an uninterpreted function of deps"""
    shape = shape_arg(I, a[1])
    u = mk("uf", tm.pyval(a[0]), tuple(I.vn(x) for x in a[2:]), ())
    return I.alloc(Arr(shape, tm.sel(u, *IX[:len(shape)]), "float"), origin="harness", label=tm.pyval(a[0]))


@model("intrinsic.field")
def _i_field(I, a, k):
    """__field__(name, x, y, ...): elementwise uninterpreted function of broadcast arrays"""
    name = tm.pyval(a[0])
    arrs = [as_array(I, x) for x in a[1:]]
    nd = max(len(x[0]) for x in arrs)
    shape = [ONE] * nd
    for s, e, d, m in arrs:
        for j, q in enumerate(s):
            if q is not ONE:
                shape[nd - len(s) + j] = q
    es = []
    for s, e, d, m in arrs:
        off = nd - len(s)
        es.append(tm.subst(e, {IX[j]: (ZERO if q is ONE else IX[j + off]) for j, q in enumerate(s)}))
    u = mk("uf", name, tuple(es), ())
    I.finite.add(name)
    return new_arr(I, shape, u, "float")


@model("intrinsic.assume")
def _i_assume(I, a, k):
    c = I.truth(a[0])
    if c is FALSE:
        raise DeadX()
    I._addfact(c)
    return NONE


@model("intrinsic.rng")
def _i_rng(I, a, k):
    name = tm.pyval(a[0])
    return I.alloc(ExtObj("numpy.random.Generator", {"name": name}), origin="harness", label=name)


@model("intrinsic.unknown")
def _i_unknown(I, a, k):
    return mk("atom", tm.pyval(a[0]), "any")


# ---------------------------------------------------------------- obligations stated by harnesses
def oblig(I, rule, status, how, detail="", loc=None):
    I.obls.append(dict(rule=I.scene + ":" + rule, status=status, how=how, detail=detail, loc=loc or I.loc,
                       stack=[f["qual"] for f in I.frames], entries=["%s (line %d)" % e for e in I.entries[-3:]]))


def decide_cond(I, c):
    from . import pit
    d = I.decide(c)
    if d is None:
        c = I.simp(c)
        d = I.decide(c)
    if d is True:
        return "ok", "decided by facts and bounds", ""
    if d is False:
        w = pit.feasible(I, I.facts)
        if w is None:
            return "undecided", "path without admissible assignment", tm.show(c)[:300]
        return "violated", "decided by facts and bounds", tm.show(c)[:300]
    if d is None and linear(I, c):
        return "ok", "linear combination of the facts", ""
    if pit.opaque(c, I) or pit.foreign(c):
        return "undecided", "unknown part", tm.show(c)[:300]
    n = 0
    t0 = time.time()
    for v in pit.valuations(I, I.facts, n=300):
        if n >= 30 and time.time() - t0 > 1.5:
            break
        try:
            if not v.bool(c):
                return "violated", "random interpretation", "fails: " + tm.show(c)[:600]
            n += 1
        except pit.Opaque:
            return "undecided", "uninterpretable", tm.show(c)[:300]
        except (pit.Skip, RecursionError, TypeError, ValueError):
            pass
    w = pit.counterexample(I, c)
    if w is not None:
        return "violated", "directed interpretation", "fails: " + tm.show(c)[:600]
    return "undecided", "not refuted on %d assignments" % n, tm.show(c)[:300]


def linear(I, c):
    """c follows from the facts by a non-negative linear combination (elimination in the polyhedral domain)"""
    if c.op == "and":
        return all(I.decide(x) or linear(I, x) for x in c.args)
    if c.op == "or":
        return any(I.decide(x) or linear(I, x) for x in c.args)
    if c.op == "pos":
        goal = (tm.neg(c.args[0]), False)          # negation: -d >= 0
    elif c.op == "not" and c.args[0].op == "pos":
        goal = (c.args[0].args[0], True)           # negation: d > 0
    else:
        return False

    def lin(t):
        return {m: k for m, k in tm.to_dict(t).items()}
    pool = []
    for f in I.facts:
        if f.op == "pos":
            pool.append((lin(f.args[0]), True))
        elif f.op == "not" and f.args[0].op == "pos":
            pool.append((lin(tm.neg(f.args[0].args[0])), False))
        elif f.op == "eq0":
            pool.append((lin(f.args[0]), False))
            pool.append((lin(tm.neg(f.args[0])), False))
    rows = [(lin(goal[0]), goal[1])]
    seen = set(m for m in rows[0][0] if m)
    changed, used = True, set()
    while changed:                                  # cone of influence
        changed = False
        for j, (d, s) in enumerate(pool):
            if j not in used and any(m in seen for m in d if m):
                used.add(j)
                rows.append((d, s))
                new = {m for m in d if m} - seen
                if new:
                    seen |= new
                    changed = True
    if len(rows) > 40:
        return False
    for m in seen:
        if len(m) == 1 and m[0][1] is tm.ONE:
            a = m[0][0]
            l, h = I.lo.get(a), I.hi.get(a)
            if l:
                rows.append(({m: Fraction(1), (): -Fraction(l[0])}, bool(l[1])))
            if h:
                rows.append(({m: Fraction(-1), (): Fraction(h[0])}, bool(h[1])))
            if a.op in ("draw", "sel", "fn", "red") and not l and not h:
                lo, hi, los, his = I.bounds(a)
                if lo is not None:
                    rows.append(({m: Fraction(1), (): -Fraction(lo)}, bool(los)))
                if hi is not None:
                    rows.append(({m: Fraction(-1), (): Fraction(hi)}, bool(his)))
    rows = [({k: v for k, v in d.items() if v}, s) for d, s in rows]
    for _ in range(60):
        for d, s in rows:
            if all(not m for m in d):
                k = d.get((), 0)
                if k < 0 or (k == 0 and s):
                    return True
        best = None
        for m in {m for d, s in rows for m in d if m}:
            p = sum(1 for d, s in rows if d.get(m, 0) > 0)
            q = sum(1 for d, s in rows if d.get(m, 0) < 0)
            cost = p * q - p - q
            if best is None or cost < best[0]:
                best = (cost, m)
        if best is None:
            return False
        m = best[1]
        P = [r for r in rows if r[0].get(m, 0) > 0]
        Q = [r for r in rows if r[0].get(m, 0) < 0]
        out = [r for r in rows if not r[0].get(m, 0)]
        for d1, s1 in P:
            for d2, s2 in Q:
                x, y = -d2[m], d1[m]
                e = {}
                for k, v in d1.items():
                    e[k] = e.get(k, 0) + v * x
                for k, v in d2.items():
                    e[k] = e.get(k, 0) + v * y
                e = {k: v for k, v in e.items() if v}
                if (e, s1 or s2) not in out:
                    out.append((e, s1 or s2))
        if len(out) > 400:
            return False
        rows = out
    return False


@model("intrinsic.check")
def _i_check(I, a, k):
    label = tm.pyval(a[0])
    c = I.truth(a[1])
    st, how, det = decide_cond(I, c)
    st, how = reachable(I, st, how)
    oblig(I, label, st, how, det, loc=tm.LOC.get(c))
    return NONE


def reachable(I, st, how):
    """a violation only counts where its path condition has an admissible assignment"""
    if st == "violated" and I.pc:
        from . import pit
        w = pit.feasible(I, I.facts, I.pc)
        if w is None:
            return "ok", "unreachable"
        if w == "unknown":
            return "undecided", "path condition unknown"
    return st, how


@model("intrinsic.same")
def _i_same(I, a, k):
    from . import pit
    label = tm.pyval(a[0])
    x, y = I.vn(a[1]), I.vn(a[2])
    sx, sy = shapes_of(I, a[1]), shapes_of(I, a[2])
    if sx is not None and sy is not None and len(sx) != len(sy):
        st, hw = reachable(I, "violated", "array rank")
        oblig(I, label, st, hw, "%d dimensions instead of %d" % (len(sx), len(sy)))
        return NONE
    r, how = pit.equal(I, x, y)
    if r is True:
        oblig(I, label, "ok", how)
    elif r is False:
        loc = pit_diff_loc(x, y)
        st, hw = reachable(I, "violated", "random interpretation")
        oblig(I, label, st, hw, "is %s\n  expected %s\n  (e.g. %s instead of %s)" % (
            tm.show(x)[:1500], tm.show(y)[:1500], how[0], how[1]), loc=loc)
    else:
        oblig(I, label, "undecided", how, "is %s expected %s" % (tm.show(x)[:300], tm.show(y)[:300]))
    return NONE


@model("intrinsic.changed")
def _i_changed(I, a, k):
    """__changed__(label, now, before): the content is not the content it was"""
    from . import pit
    label = tm.pyval(a[0])
    x, y = I.vn(a[1]), I.vn(a[2])
    r, how = pit.equal(I, x, y)
    if r is False:
        oblig(I, label, "ok", "distinct value numbers")
    elif r is True:
        st, hw = reachable(I, "violated", how)
        oblig(I, label, st, hw, "still %s" % tm.show(x)[:800], loc=None)
    else:
        oblig(I, label, "undecided", how, tm.show(x)[:300])
    return NONE


def content(I, v, seen=None, out=None):
    """all terms reachable from a value"""
    seen = set() if seen is None else seen
    out = [] if out is None else out
    v = I.res(v)
    if isinstance(v, T):
        out.append(v)
    elif isinstance(v, Tup):
        for x in v.items:
            content(I, x, seen, out)
    elif isinstance(v, Phi):
        out.append(v.cond)
        content(I, v.a, seen, out)
        content(I, v.b, seen, out)
    elif isinstance(v, Unk):
        out.append(mk("unk", "content", 0, 0))
    elif isinstance(v, Ref) and v.id not in seen and v.id in I.heap:
        seen.add(v.id)
        c = I.cell(v)
        if c.kind in ("arr", "view"):
            sh, e, d, m = as_array(I, v)
            out.extend(sh)
            out.append(tm.arr_term(sh, e) if sh else e)
        elif c.kind == "list":
            for x in c.items:
                content(I, x, seen, out)
        elif c.kind == "obj":
            for x in c.fields.values():
                content(I, x, seen, out)
        elif c.kind == "dict":
            for x in (c.items.values() if isinstance(c.items, dict) else c.items):
                for y in (x if isinstance(x, (tuple, list)) else (x,)):
                    content(I, y, seen, out)
        elif c.kind == "ext" and c.cls.startswith("numpy.random"):
            for x in c.data.values():
                if not isinstance(x, (str, int, float, bytes)):
                    content(I, x, seen, out)
        elif c.kind not in ("rng", "cls", "func"):
            out.append(mk("unk", "content", 0, 0))
    return out


@model("intrinsic.needs")
def _i_needs(I, a, k):
    """__needs__(label, value, atom): the content of the value depends on the atom"""
    from . import pit
    label, at = tm.pyval(a[0]), I.res(a[2])
    xs = content(I, a[1])
    dep = [x for x in xs if at in set(tm.walk(x))]
    if not dep:
        st, hw = ("undecided", "unknown part") if any(t.op == "unk" for x in xs for t in tm.walk(x)) else reachable(I, "violated", "dependence analysis")
        oblig(I, label, st, hw, "nothing in %s depends on %s" % (", ".join(tm.show(x)[:100] for x in xs)[:800], tm.show(at)), loc=None)
        return NONE
    same = True
    for x in dep:
        y = tm.subst(x, {at: tm.mul(at, tm.const(Fraction(1, 2)))})
        r, how = pit.equal(I, x, y)
        if r is None:
            r, how = pit.equal(I, x, y, facts=frozenset())
        if r is False or any(t.op == "unk" for t in tm.walk(x)):
            oblig(I, label, "ok", "dependence analysis")
            return NONE
        same = same and r is True
    if same:
        st, hw = reachable(I, "violated", "dependence analysis")
        oblig(I, label, st, hw, "same content for every %s" % tm.show(at), loc=None)
    else:
        oblig(I, label, "undecided", "dependence analysis", how if isinstance(how, str) else "")
    return NONE


@model("intrinsic.shows")
def _i_shows(I, a, k):
    """__shows__(label, text, name, value): the text contains name=<the value>"""
    from . import pit
    label, name, val = tm.pyval(a[0]), tm.pyval(a[2]), I.res(a[3])
    text = I.res(a[1])
    if not isinstance(text, T) or text.op not in ("fstr", "const"):
        oblig(I, label, "undecided", "text not known", repr(text)[:200])
        return NONE
    parts = text.args if text.op == "fstr" else (text,)
    hits, blind = [], False
    for j, p in enumerate(parts):
        if not isinstance(p, T) or p.op not in ("const", "strof"):
            blind = True
            continue
        if p.op != "const":
            continue
        s = p.args[1]
        for m in re.finditer(r"(?<![A-Za-z0-9_])%s\s*[=:]\s*(.*)" % re.escape(name), s, re.S):
            rest = m.group(1)
            hits.append((rest, parts[j + 1] if j + 1 < len(parts) else None))
    res, det = [], ""
    want = np.to_str(I, val, "s")
    want2 = np.to_str(I, val, "r")
    wp = [w.args if isinstance(w, T) and w.op == "fstr" else (w,) for w in (want, want2)]
    for rest, nxt in hits:
        if rest in ("", "'", '"'):
            if not isinstance(nxt, T):
                res.append(False)
            elif nxt.op == "strof":
                if isinstance(nxt.args[2], T) and nxt.args[2] is not NONE:
                    res.append(None)
                    continue
                r, how = pit.equal(I, nxt.args[1], I.vn(val)) if isinstance(nxt.args[1], T) else (None, "")
                res.append(r)
                det = "shows %s" % tm.show(nxt.args[1])[:200]
            else:
                res.append(any(nxt is w[0] for w in wp) or None)
        else:
            first = [w[0] for w in wp if isinstance(w[0], T) and w[0].op == "const"]
            res.append(True if any(rest.startswith(f.args[1][:len(rest)]) for f in first) else (False if not first else None))
            det = "shows %s" % rest[:60]
    if True in res:
        oblig(I, label, "ok", "shown")
    elif None in res or blind:
        oblig(I, label, "undecided", "text not fully known", det)
    else:
        oblig(I, label, "violated", "text", "%s of %s" % (det or "no %s=" % name, tm.show(text)[:300]))
    return NONE


@model("intrinsic.monotone")
def _i_monotone(I, a, k):
    """__monotone__(label, value, x, direction): the value is strictly monotone in the atom x"""
    from . import mono
    label, t, x, d = tm.pyval(a[0]), I.simp(I.vn(a[1])), I.res(a[2]), int(tm.num(a[3]))
    m = mono.mono(I, t, x)
    if m == d:
        oblig(I, label, "ok", "monotonicity domain")
        return NONE
    step = mk("atom", "step", "posfloat")
    t2 = tm.subst(t, {x: tm.add(x, step)})
    st, how, det = decide_cond(I, tm.lt(t, t2) if d > 0 else tm.lt(t2, t))
    if st == "violated":
        # equal values may come from saturation of the arithmetic: the order has to be reversed or the value constant
        st2, _, _ = decide_cond(I, tm.le(t, t2) if d > 0 else tm.le(t2, t))
        if st2 != "violated" and m != 0:
            st = "undecided"
    st, how = reachable(I, st, how)
    oblig(I, label, st, how, det)
    return NONE


@model("intrinsic.limit")
def _i_limit(I, a, k):
    """__limit__(value, x, direction): limit of the value for x towards plus or minus infinity"""
    from . import mono
    t, x, d = I.simp(I.vn(a[0])), I.res(a[1]), int(tm.num(a[2]))
    r = mono.limit(I, t, x, d)
    if r is None:
        return I.unk("limit")
    if isinstance(r, tuple):
        return mk("inf", r[1])
    return r


@model("intrinsic.freeof")
def _i_freeof(I, a, k):
    """__freeof__(label, value, name): the value does not depend on the uninterpreted function name"""
    from . import pit
    label, name = tm.pyval(a[0]), tm.pyval(a[2])
    x = I.vn(a[1])
    us = [t for t in tm.walk(x) if t.op == "uf" and t.args[0] == name]
    if not us:
        oblig(I, label, "ok", "no dependence")
        return NONE
    y = tm.subst(x, {t: mk("uf", name + "'", *t.args[1:]) for t in us})
    r, how = pit.equal(I, x, y)
    if r is True:
        oblig(I, label, "ok", how)
    elif r is False:
        st, hw = reachable(I, "violated", "random interpretation")
        oblig(I, label, st, hw, "%s depends on %s" % (tm.show(x)[:1500], name), loc=pit_diff_loc(x, us[0]))
    else:
        oblig(I, label, "undecided", how, tm.show(x)[:300])
    return NONE


def shapes_of(I, v):
    v = I.res(v)
    if isinstance(v, Ref) and v.id in I.heap and I.cell(v).kind in ("arr", "view"):
        s, e, d, m = as_array(I, v)
        return s if m is None else None
    return None


def pit_diff_loc(x, y):
    """location of the smallest differing subterm of x that lies in the analysed repository"""
    ys = set(tm.walk(y))
    best = None
    for t in tm.walk(x):
        if t in ys:
            continue
        loc = tm.LOC.get(t)
        if loc and "/harness/" not in str(loc):
            n = tm.weight(t)
            if best is None or n < best[0]:
                best = (n, loc)
    return best[1] if best else None


@model("intrinsic.ident")
def _i_ident(I, a, k):
    label = tm.pyval(a[0])
    x, y = I.res(a[1]), I.res(a[2])
    if isinstance(x, Ref) and isinstance(y, Ref):
        ok = x == y
    elif isinstance(x, (Phi, Unk)) or isinstance(y, (Phi, Unk)) or (isinstance(x, T) and x.op == "unk"):
        oblig(I, label, "undecided", "identity unknown")
        return NONE
    else:
        ok = x is y or x == y
    st, hw = reachable(I, "ok" if ok else "violated", "object identity")
    oblig(I, label, st, hw, "" if ok else "%r is not %r" % (x, y))
    return NONE


@model("intrinsic.independent")
def _i_independent(I, a, k):
    """no mutable object is reachable from both values (harness-declared sharing excluded)"""
    label = tm.pyval(a[0])
    ra = {r.id: r for r in I.reach(a[1])}
    rb = {r.id for r in I.reach(a[2])}
    shared = [i for i in ra if i in rb and I.heap[i].kind not in ("env",)]
    if any(I.heap[i].kind == "unk" for i in list(ra) + list(rb)):
        oblig(I, label, "undecided", "unknown object")
        return NONE
    if shared:
        st, hw = reachable(I, "violated", "reachability")
        oblig(I, label, st, hw, "shared object(s): " + ", ".join(
            "%s %s" % (I.heap[i].kind, I.meta.get(i, {}).get("label") or I.meta.get(i, {}).get("cls") or "") for i in shared[:4]))
    else:
        oblig(I, label, "ok", "reachability")
    return NONE


def _side_events(log, base, out):
    l = log
    acc = []
    while l is not None and l is not base:
        acc.append(l[1])
        l = l[0]
    for e in reversed(acc):
        _flatten(e, out)


def _flatten(e, out):
    if isinstance(e, tuple):
        if e[0] == "alt":
            for x in list(e[2]) + list(e[3]):
                _flatten(x, out)
        else:
            for x in e[-1]:
                _flatten(x, out)
    else:
        out.append(e)


def _attempt(I, f, args, kw):
    """run f; returns (value, alive, raise entries, base snapshot)"""
    base = I.snapshot()
    loc = I.loc
    v, alive, entries = I.scope(lambda: I.call(f, args, kw))
    I.loc = loc
    rs = [e for e in entries if isinstance(e.exit, RaiseX)]
    return v, alive, rs, base


def _newconds(base, snap):
    return snap[2][len(base[2]):]


@model("intrinsic.raises")
def _i_raises(I, a, k):
    """__raises__(label, exception name, thunk, quiet=True): every path of thunk ends in that exception (before any event)"""
    from . import pit
    label, exc = tm.pyval(a[0]), tm.pyval(a[1])
    v, alive, rs, base = _attempt(I, a[2], [], {})
    cur = I.snapshot() if alive else None
    st, how, det, loc = "ok", "all %d exits raise %s" % (len(rs), exc), "", None
    if alive:
        w = pit.feasible(I, cur[1], cur[2])
        conds = [c for c in _newconds(base, cur)]
        if not rs:
            w = w or "definite"
        if w is None:
            st, how, det = "undecided", "accepting path has no admissible assignment", ""
        elif w == "unknown":
            st, how, det = "undecided", "accepting path has an unknown condition", "; ".join(tm.show(c)[:160] for c in conds)
        else:
            st, how, det = "violated", "accepting path", "accepted although %s is required%s" % (
                exc, (" when " + "; ".join(tm.show(c)[:200] for c in conds)) if conds else "")
    if st == "ok":
        for e in rs:
            n = e.exit.exc.name
            if not I.exc_is(e.exit.exc, Ext(exc)):
                w = pit.feasible(I, e.snap[1], e.snap[2])
                if w is None:
                    continue
                if w == "unknown":
                    st, how, det = "undecided", "path condition unknown", n
                else:
                    st, how, det, loc = "violated", "wrong exception", "%s raised instead of %s (%s)" % (
                        n, exc, tm.show(I.vn(e.exit.exc.args[0])) if e.exit.exc.args and not isinstance(e.exit.exc.args[0], str)
                        else (e.exit.exc.args[0] if e.exit.exc.args else "")), e.exit.exc.loc
                    break
    if st == "ok" and ("quiet" not in k or k["quiet"] is not FALSE):
        for e in rs:
            evs = []
            _side_events(e.snap[3], base[3], evs)
            bad = [x for x in evs if x.kind in ("event", "draw", "nondet")]
            if bad:
                w = pit.feasible(I, e.snap[1], e.snap[2])
                if w is None:
                    continue
                st, how, loc = ("violated" if w != "unknown" else "undecided"), "effect before rejection", bad[0].loc
                det = "rejected only after %s" % (bad[0].data.get("name") or bad[0].kind)
                break
    oblig(I, label, st, how, det, loc=loc)
    I.restore(base)
    return NONE


@model("intrinsic.accepts")
def _i_accepts(I, a, k):
    """__accepts__(label, thunk): no feasible path of thunk raises; returns its value"""
    from . import pit
    label = tm.pyval(a[0])
    v, alive, rs, base = _attempt(I, a[1], [], {})
    st, how, det, loc = "ok", "no raising exit", "", None
    for e in rs:
        x = e.exit.exc
        if alive:
            w = pit.feasible(I, e.snap[1], e.snap[2])
        else:
            w = pit.feasible(I, e.snap[1], e.snap[2])
            if w is None and len(rs) == 1 and not _newconds(base, e.snap):
                w = "definite"
        if w is None:
            how = "raising exits have no admissible assignment"
            continue
        msg = x.args[0] if x.args and isinstance(x.args[0], str) else (tm.show(I.vn(x.args[0])) if x.args else "")
        st, how, det, loc = ("undecided" if w == "unknown" else "violated"), "raising path", "%s: %s at %s when %s" % (
            x.name, msg[:300], x.loc, "; ".join(tm.show(c)[:200] for c in _newconds(base, e.snap)) or "always"), x.loc
        if st == "violated":
            break
    oblig(I, label, st, how, det, loc=loc)
    if not alive:
        raise DeadX()
    return v


@model("intrinsic.rank")
def _i_rank(I, a, k):
    """__rank__("group", r, x): strict order information between atoms of a group"""
    I.ranks[a[2]] = (tm.pyval(a[0]), Fraction(tm.num(a[1])))
    return NONE


@model("intrinsic.lohi")
def _i_lohi(I, a, k):
    """__lohi__(atom, lo, hi, strict)"""
    t = a[0]
    strict = len(a) > 3 and a[3] is TRUE
    if a[1] is not NONE:
        I.lo[t] = (tm.num(a[1]), strict)
    if a[2] is not NONE:
        I.hi[t] = (tm.num(a[2]), strict)
    return NONE


@model("intrinsic.seen")
def _i_seen(I, a, k):
    """number of harness events with this name so far (as known count), or unknown"""
    evs = []
    _side_events(I.log, None, evs)
    return const(len([e for e in evs if e.kind == "event" and e.data["name"] == tm.pyval(a[0])]))


@model("intrinsic.draws")
def _i_draws(I, a, k):
    evs = []
    _side_events(I.log, None, evs)
    return const(len([e for e in evs if e.kind in ("draw", "nondet")]))


@model("intrinsic.label")
def _i_label(I, a, k):
    r = I.res(a[1])
    if isinstance(r, Ref):
        m = dict(I.meta.get(r.id, {}))
        m["label"] = tm.pyval(a[0])
        m["origin"] = "harness"
        I.meta[r.id] = m
    return a[1]


@model("intrinsic.snap")
def _i_snap(I, a, k):
    """__snap__(values): remembers the abstract content of everything reachable from the values"""
    I.snaps.append({r.id: I.heap[r.id] for r in I.reach(a[0]) if r.id in I.heap})
    return const(len(I.snaps) - 1)


@model("intrinsic.unchanged")
def _i_unchanged(I, a, k):
    """__unchanged__(label, value, snap): every object that was reachable from value still has the content it had"""
    label = tm.pyval(a[0])
    old = I.snaps[int(tm.num(a[2]))]
    seen, st, how, det, loc = set(), "ok", "content unchanged", "", None
    todo = [I.res(a[1])]
    rank = {"ok": 0, "undecided": 1, "violated": 2}
    n = 0
    while todo:
        v = I.res(todo.pop())
        if isinstance(v, Tup):
            todo.extend(v.items)
            continue
        if isinstance(v, Phi):
            todo.extend([v.a, v.b])
            continue
        if not isinstance(v, Ref) or v.id in seen:
            continue
        seen.add(v.id)
        if v.id not in old:
            # a list built for this check
            c = I.heap.get(v.id)
            if c is not None and c.kind in ("list", "set"):
                todo.extend(c.items)
            continue
        n += 1
        c0, c1 = old[v.id], I.heap[v.id]
        s, h, d, l = same_cell(I, c0, c1)
        if rank[s] > rank[st]:
            st, how, det, loc = s, h, "%s: %s" % (I.meta.get(v.id, {}).get("label") or c0.kind, d), l
        if c0.kind in ("list", "set"):
            todo.extend(c0.items)
        elif c0.kind == "dict":
            todo.extend(x for kv in c0.items for x in kv)
        elif c0.kind == "obj":
            todo.extend(c0.fields.values())
        elif c0.kind == "view":
            todo.append(c0.base)
    st, how = reachable(I, st, how)
    oblig(I, label, st, how, det, loc=loc)
    return NONE


def same_cell(I, c0, c1):
    from . import pit
    if c0 is c1:
        return "ok", "", "", None
    if c0.kind != c1.kind:
        if "unk" in (c0.kind, c1.kind):
            return "undecided", "unknown object", "", None
        return "violated", "content", "%s became %s" % (c0.kind, c1.kind), None

    def val(x, y):
        x, y = I.res(x), I.res(y)
        if x is y or x == y:
            return "ok", "", "", None
        if isinstance(x, T) and isinstance(y, T):
            r, h = pit.equal(I, x, y)
            if r is True:
                return "ok", h, "", None
            if r is None:
                return "undecided", h, tm.show(y)[:200], None
            return "violated", "content changed", "%s became %s" % (tm.show(x)[:300], tm.show(y)[:300]), pit_diff_loc(y, x)
        if isinstance(x, (Unk, Phi)) or isinstance(y, (Unk, Phi)):
            return "undecided", "unknown member", "", None
        if isinstance(x, Tup) and isinstance(y, Tup) and len(x.items) == len(y.items):
            return worst([val(p, q) for p, q in zip(x.items, y.items)])
        return "violated", "member replaced", "%r became %r" % (x, y), None

    def worst(rs):
        out = ("ok", "", "", None)
        for r in rs:
            if {"ok": 0, "undecided": 1, "violated": 2}[r[0]] > {"ok": 0, "undecided": 1, "violated": 2}[out[0]]:
                out = r
        return out
    if c0.kind == "arr":
        if c0.mask is not c1.mask or len(c0.shape) != len(c1.shape):
            return "violated", "content", "shape", None
        return worst([val(tm.arr_term(c0.shape, c0.elem), tm.arr_term(c1.shape, c1.elem))])
    if c0.kind == "view":
        return ("ok", "", "", None) if c0.base == c1.base and c0.imap == c1.imap else ("violated", "content", "view", None)
    if c0.kind in ("list", "set"):
        if len(c0.items) != len(c1.items):
            return "violated", "content", "%d instead of %d members" % (len(c1.items), len(c0.items)), None
        return worst([val(x, y) for x, y in zip(c0.items, c1.items)])
    if c0.kind == "dict":
        if len(c0.items) != len(c1.items):
            return "violated", "content", "%d instead of %d members" % (len(c1.items), len(c0.items)), None
        return worst([val(x, y) for p, q in zip(c0.items, c1.items) for x, y in zip(p, q)])
    if c0.kind == "obj":
        new = [f for f in c1.fields if f not in c0.fields and c1.fields[f] is not UNBOUND]
        if new:
            return "violated", "content", "new attribute " + new[0], None
        return worst([val(x, c1.fields.get(f, UNBOUND)) for f, x in c0.fields.items()])
    return "ok", "", "", None
