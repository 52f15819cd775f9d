"""Models of builtins, numpy, scipy and the other external names used by the analysed code (transfer functions)."""
from __future__ import annotations
import re
import string
from fractions import Fraction
from . import terms as tm
from .terms import T, const, mk, IX, TRUE, FALSE, NONE, ZERO, ONE
from .values import *

MODELS = {}
METHODS = {}
BUILTINS = set("""abs all any bool bytes callable complex dict divmod enumerate filter float format frozenset getattr hasattr
hash hex id int isinstance issubclass iter len list map max min next object open ord pow print property range repr reversed
round set setattr slice sorted staticmethod classmethod str sum super tuple type zip vars dir input exec eval
ValueError TypeError AttributeError KeyError IndexError RuntimeError NotImplementedError Exception BaseException
ArithmeticError ZeroDivisionError OverflowError AssertionError StopIteration LookupError NameError ImportError Warning
UserWarning DeprecationWarning RuntimeWarning NotImplemented Ellipsis FloatingPointError OSError IOError __import__""".split())
INTRINSICS = {"field", "freeof", "event", "arr", "atom", "op", "oparr", "assume", "require", "rng", "same", "fn", "log", "vn", "dim", "list",
              "havoc", "unknown", "lam", "check", "ident", "raises", "accepts", "seen", "strarr", "rank", "lohi", "assign", "label",
              "draws", "distinct", "obj", "independent", "kindof", "snap", "unchanged", "changed", "shows", "needs", "monotone", "limit"}

EXC_PARENT = {"ValueError": "Exception", "TypeError": "Exception", "AttributeError": "Exception", "KeyError": "LookupError",
              "IndexError": "LookupError", "LookupError": "Exception", "RuntimeError": "Exception",
              "NotImplementedError": "RuntimeError", "Exception": "BaseException", "ArithmeticError": "Exception",
              "ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError",
              "FloatingPointError": "ArithmeticError", "AssertionError": "Exception", "StopIteration": "Exception",
              "NameError": "Exception", "ImportError": "Exception", "OSError": "Exception", "Warning": "Exception",
              "UserWarning": "Warning", "DeprecationWarning": "Warning", "RuntimeWarning": "Warning",
              "numpy.linalg.LinAlgError": "ValueError", "UnboundLocalError": "NameError"}


def exc_sub(a, b):
    while a is not None:
        if a == b:
            return True
        a = EXC_PARENT.get(a)
    return False


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


ALIASES = {"numpy.random._generator.Generator": "numpy.random.Generator", "copy.copy": "copy.copy"}


def normalise_ext(v):
    n = v.name
    if n.startswith("mod:"):
        return v
    return Ext(ALIASES.get(n, n))


def ext_attr(I, o, name):
    if o.name.startswith("mod:"):
        full = o.name[4:] + "." + name
    else:
        full = o.name + "." + name
    full = ALIASES.get(full, full)
    c = CONSTS.get(full)
    if c is not None:
        return c() if callable(c) else c
    if full in ("sys.float_info",):
        return Ext(full)
    if name == "__name__":
        return const(o.name.split(".")[-1])
    return Ext(full)


CONSTS = {"numpy.nan": mk("nan"), "numpy.NaN": mk("nan"), "numpy.inf": mk("inf", 1), "math.inf": mk("inf", 1),
          "math.nan": mk("nan"), "numpy.pi": tm.PI, "math.pi": tm.PI, "numpy.e": tm.EXP, "math.e": tm.EXP,
          "sys.float_info.epsilon": const(Fraction(1, 2 ** 52)), "numpy.newaxis": NONE}


# ---------------------------------------------------------------- arrays: reading
def vague(v):
    """a value with unknown parts: not known to be a scalar"""
    return isinstance(v, T) and any(x.op == "unk" or (x.op == "lpre" and x.args[-1] == "any") for x in tm.walk(v))


def shape_of(I, v):
    return as_array(I, v)[0]


def case(idx, *elems):
    return tm.case(idx, *elems)


def as_array(I, v, depth=0):
    """(shape, elem, dtype, mask)"""
    v = I.res(v)
    if isinstance(v, T):
        k = I.kind(v)
        return (), v, ({"int": "int?", "float": "float", "bool": "bool"}.get(k)), None
    if isinstance(v, Ref):
        c = I.cell(v)
        if c.kind == "arr":
            return c.shape, c.elem, c.dtype, c.mask
        if c.kind == "view":
            s, e, d, m = as_array(I, c.base)
            return c.shape, tm.subst(e, {IX[k]: c.imap[k] for k in range(len(c.imap))}), d, m
        if c.kind in ("list", "set"):
            return seq_array(I, list(c.items))
        if c.kind == "symlist":
            s, e, d, m = as_array(I, c.value)
            e = tm.subst(e, dict([(IX[k], IX[k + 1]) for k in range(len(s))] + [(c.var, IX[0])]))
            s = tuple(tm.subst(x, {c.var: ZERO}) for x in s)
            return (c.length,) + s, e, d, m
        if c.kind == "unk":
            return (I.fresh("dim"),), mk("unk", "cell", v.id), None, None
    if isinstance(v, Tup):
        return seq_array(I, list(v.items))
    if isinstance(v, RangeV):
        return (range_len(I, v),), tm.add(v.start, tm.mul(IX[0], v.step)), "int", None
    if isinstance(v, IterV):
        it = I.iterate(v)
        if it[0] == "known":
            return seq_array(I, it[1])
    if isinstance(v, NonZero) and v.comp is not None:
        return as_array(I, v.comp)
    return (), I.unk("as_array " + type(v).__name__), None, None


def unknown_leaf(I, v):
    """does the (nested) sequence contain a value whose shape is unknown?"""
    v = I.res(v)
    if isinstance(v, T):
        return v.op == "unk" or (v.op == "atom" and I.kind(v) == "any")
    if isinstance(v, Unk):
        return True
    if isinstance(v, Tup):
        return any(unknown_leaf(I, x) for x in v.items)
    if isinstance(v, Ref):
        c = I.cell(v)
        if c.kind in ("list", "set"):
            return any(unknown_leaf(I, x) for x in c.items)
        if c.kind == "symlist":
            return unknown_leaf(I, c.value)
        if c.kind == "unk":
            return True
    return False


def plain(I, v):
    """as_array with selections written out: element j of a selection is the element at the j-th selected position"""
    return unmask(I, as_array(I, v))


def unmask(I, part):
    shape, elem, dt, mask = part
    if mask is None:
        return part
    n = I_masknd(I, mask, shape)
    M = tm.arr_term(shape[:n], mask)
    pos = const_positions(I, M)
    if pos is not None:
        cnt, ix = const(len(pos)), [case(IX[0], *[const(p[a]) for p in pos]) if pos else ZERO for a in range(n)]
    else:
        cnt, ix = mk("count", M), [mk("nth", M, IX[0], a) for a in range(n)]
    mp = {IX[a]: ix[a] for a in range(n)}
    mp.update({IX[a]: IX[a - n + 1] for a in range(n, len(shape))})
    return (cnt,) + tuple(shape[n:]), tm.subst(elem, mp), dt, None


def const_positions(I, M):
    """selected positions of a mask all of whose elements are known"""
    if M.op != "arr":
        return None
    dims = [tm.num(d) for d in M.args[0]]
    if any(d is None or d > 32 for d in dims):
        return None
    import itertools
    idx = list(itertools.product(*[range(int(d)) for d in dims]))
    if len(idx) > 64:
        return None
    out = []
    for i in idx:
        r = I.decide(I.truth(at(M, [const(q) for q in i])))
        if r is None:
            return None
        if r:
            out.append(i)
    return out


def at(M, ix):
    """element of a whole-array value number"""
    if M.op == "arr":
        return tm.subst(M.args[2], {mk("bv", M.args[1] + q): x for q, x in enumerate(ix)})
    return tm.sel(M, *ix)


def masked_count(I, mask, shape):
    M = tm.arr_term(shape[:I_masknd(I, mask, shape)], mask)
    pos = const_positions(I, M)
    return mk("count", M) if pos is None else const(len(pos))


def seq_array(I, items):
    if not items:
        return (ZERO,), mk("unk", "empty"), "float", None
    parts = [plain(I, x) for x in items]
    nd = len(parts[0][0])
    if any(not p[0] and vague(p[1]) for p in parts):
        return (), I.unk("concatenation of unknown"), None, None
    if any(len(p[0]) != nd for p in parts):
        I.raise_("ValueError", "inhomogeneous array")
    dts = {p[2] for p in parts}
    dt = dts.pop() if len(dts) == 1 else (None if not dts <= {"int", "int?", "float", "bool"} else "float" if "float" in dts else "int?" if "int?" in dts else "int")
    sh = [tm.subst(x, {IX[k]: IX[k + 1] for k in range(nd)}) for x in (p[1] for p in parts)]
    e = case(IX[0], *sh)
    return (const(len(items)),) + parts[0][0], e, dt, None


def range_len(I, r):
    s = tm.num(r.step)
    d = tm.sub(r.stop, r.start)
    if s is None:
        return I.unk("range step")
    nd = tm.num(d)
    if nd is not None:
        k = len(range(0, int(nd), int(s)))
        return const(k)
    if s == 1:
        return d if I.decide(tm.le(ZERO, d)) in (True,) else clampdim(I, d)
    if s == -1:
        d = tm.neg(d)
        return d
    return tm.fn("ceil", tm.div(d, r.step))


def clampdim(I, d):
    """length max(0, d); assumed non-negative when it cannot be decided (recorded)"""
    r = I.decide(tm.lt(d, ZERO))
    if r is True:
        return ZERO
    return d


def new_arr(I, shape, elem, dtype=None, mask=None, **meta):
    if not shape and mask is None:
        return elem
    return I.alloc(Arr(shape, elem, dtype, mask), **meta)


def scalarize(I, v):
    """0-d results become scalars"""
    return v


# ---------------------------------------------------------------- broadcasting
def broadcast(I, parts):
    """parts: list of (shape, elem, dtype, mask) -> (shape, [elems], mask)"""
    masks = {p[3] for p in parts if p[3] is not None}
    mask = None
    if masks:
        mask = next(iter(masks))
        ms = [p[0] for p in parts if p[3] is mask][0]
        if len(masks) > 1 or any(p[3] is None and p[0] and not all(tm.num(d) == 1 for d in p[0]) for p in parts) \
                or any(p[3] is mask and p[0] != ms for p in parts):
            parts = [unmask(I, p) for p in parts]
            mask = None
    nd = max((len(p[0]) for p in parts), default=0)
    shape = []
    for k in range(nd):
        d = None
        for p in parts:
            s = p[0]
            j = k - (nd - len(s))
            if j < 0:
                continue
            x = s[j]
            if d is None or tm.num(d) == 1:
                d = x
            elif x is d or tm.num(x) == 1:
                pass
            elif tm.num(x) is not None and tm.num(d) is not None:
                I.raise_("ValueError", "operands could not be broadcast together")
            else:
                r = I.decide(tm.eq(x, d))
                if r is False:
                    I.raise_("ValueError", "operands could not be broadcast together")
                if r is None:
                    if tm.num(d) is None and tm.num(x) is not None:
                        d = x
                    I.unsup["assumed equal extents"] = I.unsup.get("assumed equal extents", 0) + 1
        shape.append(d)
    elems = []
    for p in parts:
        s, e = p[0], p[1]
        off = nd - len(s)
        mp = {}
        for j in range(len(s)):
            if tm.num(s[j]) == 1 and tm.num(shape[j + off]) != 1:
                mp[IX[j]] = ZERO
            elif tm.num(s[j]) == 1:
                mp[IX[j]] = ZERO
            elif off:
                mp[IX[j]] = IX[j + off]
        elems.append(tm.subst(e, mp) if mp else e)
    return tuple(shape), elems, mask


def ew(I, f, vals, dtype=None):
    parts = [as_array(I, v) for v in vals]
    shape, elems, mask = broadcast(I, parts)
    e = f(*elems)
    if not shape and mask is None:
        return e
    return new_arr(I, shape, e, dtype, mask)


def res_dtype(I, vals, div=False):
    ds = [as_array(I, v)[2] for v in vals]
    if div:
        return "float"
    if "float" in ds:
        return "float"
    if None in ds:
        return None
    if "uint8" in ds:
        return "uint8" if all(isinstance(I.res(v), T) or d == "uint8" for v, d in zip(vals, ds)) else "int"
    return "int?" if "int?" in ds else "int"


def is_arrayish(I, v):
    v = I.res(v)
    return isinstance(v, Ref) and I.cell(v).kind in ("arr", "view")


OPS = {"Add": tm.add, "Sub": tm.sub, "Mult": tm.mul}


def floordiv(I, a, b):
    return tm.floordiv(a, b)


def scalar_op(I, op, a, b):
    if op in OPS:
        return OPS[op](a, b)
    if op == "Div":
        return tm.div(a, b)
    if op == "FloorDiv":
        return tm.floordiv(a, b)
    if op == "Mod":
        return tm.mod(a, b)
    if op == "Pow":
        return tm.power(a, b)
    if op in ("BitAnd", "BitOr", "BitXor"):
        boolish = I.kind(a) == "bool" and I.kind(b) == "bool"
        if op == "BitAnd":
            if boolish:
                return tm.and_(I.truth(a), I.truth(b))
            if I.kind(a) == "bool" or I.kind(b) == "bool":
                x, y = (a, b) if I.kind(a) == "bool" else (b, a)
                return tm.ite(I.truth(x), tm.mod(y, const(2)) if not low2(y) else y, ZERO)
        if op == "BitOr" and boolish:
            return tm.or_(I.truth(a), I.truth(b))
        if op == "BitXor" and boolish:
            return tm.or_(tm.and_(I.truth(a), tm.not_(I.truth(b))), tm.and_(tm.not_(I.truth(a)), I.truth(b)))
        return mk("fn", "bit" + op, a, b)
    if op in ("LShift", "RShift"):
        return mk("fn", op, a, b)
    return I.unk("binop " + op)


def low2(y):
    if y.op == "ite":
        return low2(y.args[1]) and low2(y.args[2])
    return tm.num(y) in (0, 1)


def binop(I, op, a, b):
    if isinstance(a, T) and isinstance(b, T):
        ka, kb = I.kind(a), I.kind(b)
        if op == "Add" and (ka == "str" or kb == "str"):
            if ka != "str" and ka != "any" or kb != "str" and kb != "any":
                I.raise_("TypeError", "str + non-str")
            return mkstr([a, b])
        if op == "Mod" and ka == "str":
            return percent_format(I, a, [b])
        if op == "Mult" and (ka == "str" or kb == "str"):
            return mk("strof", mk("rep", a, b))
        for x, k in ((a, ka), (b, kb)):
            if k == "none":
                I.raise_("TypeError", "unsupported operand None")
            if k == "str":
                I.raise_("TypeError", "unsupported operand str")
        if op in ("Div", "FloorDiv", "Mod") and tm.num(b) == 0 and ka in ("int", "float") and a.op == "poly":
            I.raise_("ZeroDivisionError")
        return scalar_op(I, op, a, b)
    # sequences
    if op == "Mod" and isinstance(a, T) and I.kind(a) == "str":
        return percent_format(I, a, list(b.items) if isinstance(b, Tup) else [b])
    ca = I.cell(a).kind if isinstance(a, Ref) else None
    cb = I.cell(b).kind if isinstance(b, Ref) else None
    if op == "MatMult":
        return dot(I, a, b)
    arr = ca in ("arr", "view") or cb in ("arr", "view")
    if arr and (vague(a) or vague(b)):
        return I.unk("array with unknown")
    if not arr:
        if isinstance(a, Tup) and isinstance(b, Tup) and op == "Add":
            return Tup(a.items + b.items)
        if ca == "list" and cb == "list" and op == "Add":
            return I.alloc(Lst(I.cell(a).items + I.cell(b).items))
        if op == "Add" and "symlist" in (ca, cb):
            return I.unk("list concat")
        if op == "Mult":
            for x, y, k in ((a, b, ca), (b, a, cb)):
                if (k == "list" or isinstance(x, Tup)) and isinstance(y, T):
                    items = I.cell(x).items if k == "list" else x.items
                    n = tm.num(y)
                    if n is not None:
                        r = tuple(items) * int(n)
                        return I.alloc(Lst(r)) if k == "list" else Tup(r)
                    if len(items) == 1 and k == "list":
                        I.counter += 1
                        lv = mk("lv", I.counter)
                        return I.alloc(SymLst(y, lv, items[0]))
                    return I.unk("list repeat")
        for x, k in ((a, ca), (b, cb)):
            if k == "obj":
                names = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__"}
                m, _ = I.cell(x).cls.lookup(names.get(op, "__none__"))
                if isinstance(m, Fn) and x is a:
                    return I.call(Bound(m, a), [b], {})
        if isinstance(a, (Tup, Exc, Fn, Bound, Cls)) or isinstance(b, (Tup, Exc, Fn, Bound, Cls)) or ca in (
                "list", "dict", "obj") or cb in ("list", "dict", "obj"):
            if not (isinstance(a, T) and a.op in ("unk", "uf")) and not (isinstance(b, T) and b.op in ("unk", "uf")):
                if isinstance(a, T) and I.kind(a) == "any" or isinstance(b, T) and I.kind(b) == "any":
                    return I.unk("binop any")
                I.raise_("TypeError", "unsupported operand types for " + op)
        return I.unk("binop %s %s %s" % (op, type(a).__name__, type(b).__name__))
    for x in (a, b):
        if isinstance(x, T) and I.kind(x) in ("none", "str"):
            I.raise_("TypeError", "unsupported operand")
    dt = res_dtype(I, [a, b], div=op == "Div")
    if op in ("BitAnd", "BitOr", "BitXor"):
        ds = [as_array(I, v)[2] for v in (a, b)]
        dt = "bool" if all(d == "bool" for d in ds) else "int"
    I.emit_arith(op, a, b) if hasattr(I, "emit_arith") else None
    return ew(I, lambda x, y: scalar_op(I, op, x, y), [a, b], dt)


def unop(I, op, v):
    def f(x):
        if op == "USub":
            if I.kind(x) == "none":
                I.raise_("TypeError")
            return tm.neg(x)
        if op == "UAdd":
            return x
        if op == "Invert":
            if I.kind(x) == "bool":
                return tm.not_(I.truth(x))
            return tm.sub(const(-1), x)
        return I.unk("unop")
    if isinstance(v, T):
        return f(v)
    return ew(I, f, [v], as_array(I, v)[2])


CMP = {"Lt": tm.lt, "LtE": tm.le, "Gt": lambda a, b: tm.lt(b, a), "GtE": lambda a, b: tm.le(b, a)}


def scalar_cmp(I, op, a, b):
    ka, kb = I.kind(a), I.kind(b)
    if op in ("Eq", "NotEq"):
        if ka in ("bool",) and a.op != "const" and kb in ("int", "bool", "float") and tm.num(b) is not None:
            r = I.truth(a) if tm.num(b) == 1 else (tm.not_(I.truth(a)) if tm.num(b) == 0 else FALSE)
        elif kb in ("bool",) and b.op != "const" and ka in ("int", "bool", "float") and tm.num(a) is not None:
            r = I.truth(b) if tm.num(a) == 1 else (tm.not_(I.truth(b)) if tm.num(a) == 0 else FALSE)
        elif ka == "bool" and kb == "bool" and a.op != "const" and b.op != "const":
            ta, tb = I.truth(a), I.truth(b)
            r = tm.ite(ta, tb, tm.not_(tb))
        elif (ka in ("none", "str")) != (kb in ("none", "str")) and "any" not in (ka, kb):
            r = FALSE
        elif ka == "str" and kb == "str":
            r = tm.eq(a, b) if (a.op == "const" and b.op == "const") or a is b else mk("eq", *sorted((a, b), key=tm.order_key))
        elif a.op == "nan" or b.op == "nan":
            r = FALSE
        elif a.op == "ite" and tm.is_const(b) and tm.num(b) is not None and leafconst(a):
            r = distribute(a, lambda x: tm.eq(x, b))
        elif b.op == "ite" and tm.is_const(a) and tm.num(a) is not None and leafconst(b):
            r = distribute(b, lambda x: tm.eq(x, a))
        else:
            r = tm.eq(a, b)
        return r if op == "Eq" else tm.not_(r)
    for k in (ka, kb):
        if k == "none" or (k == "str" and not (ka == kb == "str")):
            I.raise_("TypeError", "'<' not supported between instances")
    if ka == "bool" and a.op != "const":
        a = tm.ite(I.truth(a), ONE, ZERO)
    if kb == "bool" and b.op != "const":
        b = tm.ite(I.truth(b), ONE, ZERO)
    if a.op == "nan" or b.op == "nan":
        return FALSE
    if leafconst(a) and a.op == "ite" and tm.num(b) is not None:
        return distribute(a, lambda x: CMP[op](x, b))
    if leafconst(b) and b.op == "ite" and tm.num(a) is not None:
        return distribute(b, lambda x: CMP[op](a, x))
    return CMP[op](a, b)


def leafconst(t):
    if t.op == "ite":
        return leafconst(t.args[1]) and leafconst(t.args[2])
    return tm.num(t) is not None


def distribute(t, f):
    if t.op == "ite":
        return tm.ite(t.args[0], distribute(t.args[1], f), distribute(t.args[2], f))
    return f(t)


def compare(I, op, a, b):
    if op in ("Is", "IsNot"):
        r = is_same(I, a, b)
        return r if op == "Is" else tm.not_(r)
    if op in ("In", "NotIn"):
        r = contains(I, a, b)
        return r if op == "In" else tm.not_(r)
    if isinstance(a, T) and isinstance(b, T):
        return scalar_cmp(I, op, a, b)
    if is_arrayish(I, a) or is_arrayish(I, b):
        for x in (a, b):
            if isinstance(x, T) and I.kind(x) == "none":
                if op in ("Eq", "NotEq"):
                    y = b if x is a else a
                    return ew(I, lambda e: FALSE if op == "Eq" else TRUE, [y], "bool")
                I.raise_("TypeError", "'<' not supported between array and None")
        return ew(I, lambda x, y: scalar_cmp(I, op, x, y), [a, b], "bool")
    if op in ("Eq", "NotEq"):
        r = value_eq(I, a, b)
        return r if op == "Eq" else tm.not_(r)
    if isinstance(a, T) and a.op == "unk" or isinstance(b, T) and b.op == "unk":
        return mk("truth", I.unk("compare"))
    if isinstance(a, (Tup, Ref)) and isinstance(b, T) or isinstance(b, (Tup, Ref)) and isinstance(a, T):
        x = a if isinstance(a, T) else b
        if I.kind(x) != "any":
            I.raise_("TypeError", "'<' not supported between instances")
    return mk("truth", I.unk("compare"))


def value_eq(I, a, b):
    if isinstance(a, Ext) and isinstance(b, Ext) or isinstance(a, Cls) or isinstance(b, Cls):
        return TRUE if a is b or (isinstance(a, Ext) and a == b) else FALSE
    ia, ib = seq_items(I, a), seq_items(I, b)
    if ia is not None and ib is not None:
        if type(a) is not type(b):
            return FALSE
        if len(ia) != len(ib):
            return FALSE
        return tm.and_(*[I.truth(compare(I, "Eq", I.res(x), I.res(y))) for x, y in zip(ia, ib)])
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a == b:
            return TRUE
        if I.cell(a).kind == "obj" and I.cell(b).kind == "obj":
            m, _ = I.cell(a).cls.lookup("__eq__")
            if isinstance(m, Fn):
                return I.truth(I.call(Bound(m, a), [b], {}))
            return FALSE
        return mk("truth", I.unk("eq of refs"))
    if isinstance(a, DType) and isinstance(b, DType):
        return TRUE if a == b else FALSE
    if isinstance(a, DType) and isinstance(b, Ext) or isinstance(b, DType) and isinstance(a, Ext):
        return TRUE if dtype_name(I, a) == dtype_name(I, b) else FALSE
    if isinstance(a, T) and a.op in ("unk", "uf", "sel", "atom") and I.kind(a) == "any" or \
            isinstance(b, T) and b.op in ("unk", "uf", "sel", "atom") and I.kind(b) == "any":
        return mk("truth", I.unk("eq"))
    return FALSE


def seq_items(I, v):
    if isinstance(v, Tup):
        return v.items
    if isinstance(v, Ref) and I.cell(v).kind in ("list",):
        return I.cell(v).items
    return None


def is_same(I, a, b):
    if isinstance(a, T) and isinstance(b, T):
        if a.op == "const" and b.op == "const":
            return TRUE if a is b else FALSE
        for x, y in ((a, b), (b, a)):
            if x is NONE:
                if I.kind(y) not in ("any", "none"):
                    return FALSE
                return mk("eq", NONE, y)
            if x.op == "const" and I.kind(y) == "bool":
                return I.truth(y) if x is TRUE else tm.not_(I.truth(y))
        return scalar_cmp(I, "Eq", a, b)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return TRUE if a == b else FALSE
    if isinstance(a, Ext) and isinstance(b, Ext):
        return TRUE if a == b else FALSE
    if isinstance(a, T) and a.op in ("unk",) or isinstance(b, T) and b.op in ("unk",):
        return mk("truth", I.unk("is"))
    return TRUE if a is b else FALSE


def contains(I, a, b):
    """a in b"""
    b = I.res(b)
    if isinstance(b, T):
        if b.op == "const" and isinstance(b.args[1], str) and a.op == "const":
            return TRUE if a.args[1] in b.args[1] else FALSE
        if I.kind(b) in ("int", "float", "none"):
            I.raise_("TypeError", "argument is not iterable")
        return mk("truth", I.unk("in"))
    if isinstance(b, Ref) and I.cell(b).kind == "ext":
        return mk("truth", I.unk("in ext"))
    if isinstance(b, Ref) and I.cell(b).kind == "obj":
        return mk("truth", I.unk("in obj"))
    items = I.known_items(b)
    if items is None:
        return mk("truth", I.unk("in symbolic"))
    rs = []
    for x in items:
        r = I.lift([a, x], lambda p, q: I.truth(compare(I, "Eq", p, q)) if not (is_arrayish(I, p) or is_arrayish(I, q))
                   else mk("truth", I.unk("in arr")))
        rs.append(r)
    return tm.or_(*rs)


# ---------------------------------------------------------------- indexing
def norm_index(I, i, dim):
    n = tm.num(i)
    if n is not None:
        d = tm.num(dim)
        if d is not None and not (-d <= n < d):
            I.raise_("IndexError", "index out of bounds")
        if n < 0:
            return tm.add(dim, i)
        return i
    lo, hi, _, hs = I.bounds(i)
    if hi is not None and (hi < 0 or (hi == 0 and hs)):
        return tm.add(dim, i)
    return i


def norm_slice(I, s, dim):
    """-> (start, step, length)"""
    step = ONE if s.step is NONE else s.step
    ns = tm.num(step)
    if ns is None or ns == 0:
        return None
    def nb(x):
        n = tm.num(x)
        if n is not None and n < 0:
            return tm.add(dim, x)
        if n is None:
            lo, hi, los, hs = I.bounds(x)
            if hi is not None and (hi < 0 or (hi == 0 and hs)):
                return tm.add(dim, x)
        return x
    if ns > 0:
        start = ZERO if s.start is NONE else nb(s.start)
        stop = dim if s.stop is NONE else nb(s.stop)
        if s.stop is not NONE and stop is not dim:
            le = I.decide(tm.le(stop, dim))
            if le is False:
                stop = dim
            elif le is None:
                stop = tm.minmax("min", stop, dim)
        if s.start is not NONE and start is not ZERO:
            nd, nst = tm.num(dim), tm.num(start)
            if nd is not None and nst is not None and nst > nd:
                start = dim
        d = tm.sub(stop, start)
        if ns == 1:
            ln = clampdim(I, d)
        else:
            nd = tm.num(d)
            ln = const(len(range(0, int(nd), int(ns)))) if nd is not None else tm.fn("ceil", tm.div(d, step))
        return start, step, ln
    start = tm.sub(dim, ONE) if s.start is NONE else nb(s.start)
    if s.stop is NONE:
        d = tm.add(start, ONE)
    else:
        d = tm.sub(start, nb(s.stop))
    if ns == -1:
        ln = clampdim(I, d)
    else:
        nd = tm.num(d)
        ln = const(len(range(0, int(nd), int(-ns)))) if nd is not None else tm.fn("ceil", tm.div(d, tm.neg(step)))
    return start, step, ln


def expand_key(I, key, nd):
    keys = list(key.items) if isinstance(key, Tup) else [key]
    keys = [I.res(k) for k in keys]
    nreal = sum(1 for k in keys if not (isinstance(k, T) and (k is NONE or k.op == "const" and k.args[1] is Ellipsis))
                and not isinstance(k, NonZero))
    for k in keys:
        if isinstance(k, NonZero):
            nreal += len(as_array(I, k.mask)[0])
        elif is_arrayish(I, k) and as_array(I, k)[2] == "bool":
            nreal += len(as_array(I, k)[0]) - 1
    out = []
    seen = False
    for k in keys:
        if isinstance(k, T) and k.op == "const" and k.args[1] is Ellipsis:
            out.extend([SliceV(NONE, NONE, NONE)] * (nd - nreal))
            seen = True
        else:
            out.append(k)
    if not seen:
        out.extend([SliceV(NONE, NONE, NONE)] * (nd - nreal))
    return out


def root_of(I, v):
    """(root ref, shape, imap) of an array reference"""
    c = I.cell(v)
    if c.kind == "view":
        return c.base, c.shape, c.imap
    return v, c.shape, tuple(IX[:len(c.shape)])


def basic_index(I, v, keys):
    """keys only ints / slices / None -> (root, shape, imap) or None"""
    root, shape, imap = root_of(I, v)
    nshape = []
    mp = {}
    dim = 0
    for k in keys:
        if isinstance(k, T) and k is NONE:
            nshape.append(ONE)
            continue
        if dim >= len(shape):
            I.raise_("IndexError", "too many indices for array")
        if isinstance(k, SliceV):
            r = norm_slice(I, k, shape[dim])
            if r is None:
                return None
            st, sp, ln = r
            mp[IX[dim]] = tm.add(st, tm.mul(sp, IX[len(nshape)]))
            nshape.append(ln)
        elif isinstance(k, T):
            kk = I.kind(k)
            if kk == "float" and (tm.num(k) is not None or k.op == "atom"):
                I.raise_("IndexError", "only integers are valid indices")
            if kk in ("none", "str"):
                I.raise_("IndexError", "only integers are valid indices")
            mp[IX[dim]] = norm_index(I, k, shape[dim])
        else:
            return None
        dim += 1
    while dim < len(shape):
        mp[IX[dim]] = IX[len(nshape)]
        nshape.append(shape[dim])
        dim += 1
    nimap = tuple(tm.subst(m, mp) for m in imap)
    return root, tuple(nshape), nimap


def getitem(I, o, k):
    o, k = I.res(o), I.res(k)
    if isinstance(o, T):
        if o.op == "const" and isinstance(o.args[1], str):
            if isinstance(k, T) and tm.num(k) is not None:
                try:
                    return const(o.args[1][int(tm.num(k))])
                except IndexError:
                    I.raise_("IndexError")
            if isinstance(k, SliceV):
                parts = [None if x is NONE else tm.num(x) if isinstance(x, T) else "?" for x in (k.start, k.stop, k.step)]
                if all(p is None or (p != "?" and p.denominator == 1) for p in parts) and not any(
                        p is None and x is not NONE for p, x in zip(parts, (k.start, k.stop, k.step))):
                    return const(o.args[1][slice(*[None if p is None else int(p) for p in parts])])
            return I.unk("str slice")
        if o.op in ("unk", "uf", "lmark", "truth", "lpre", "mu") or I.kind(o) == "any":
            if o.op == "uf" and isinstance(k, T):
                return tm.sel(o, k)
            return I.unk("subscript of unknown")
        kk = I.kind(o)
        I.raise_("IndexError" if False else "TypeError", "'%s' object is not subscriptable" % kk)
    if isinstance(o, Tup):
        return seq_get(I, list(o.items), k, Tup)
    if isinstance(o, RangeV):
        if isinstance(k, T):
            return tm.add(o.start, tm.mul(o.step, norm_index(I, k, range_len(I, o))))
        return I.unk("range slice")
    if isinstance(o, NonZero):
        if isinstance(k, T) and tm.num(k) is not None:
            comp = o.comp
            s, e, d, m = as_array(I, o.mask)
            j = int(tm.num(k))
            if j >= len(s):
                I.raise_("IndexError")
            I.masknd[e] = len(s)
            return I.alloc(Arr(s, IX[j], "int", e))
        return I.unk("nonzero index")
    if isinstance(o, Ref):
        c = I.cell(o)
        if c.kind == "list":
            return seq_get(I, list(c.items), k, lambda xs: I.alloc(Lst(xs)))
        if c.kind == "symlist":
            if isinstance(k, T):
                i = norm_index(I, k, c.length)
                return subst_value(I, c.value, {c.var: i})
            return I.unk("symlist slice")
        if c.kind == "dict":
            return dict_get(I, c, k)
        if c.kind in ("arr", "view"):
            return arr_get(I, o, k)
        if c.kind == "obj":
            m, _ = c.cls.lookup("__getitem__")
            if isinstance(m, Fn):
                return I.call(Bound(m, o), [k], {})
            I.raise_("TypeError", "object is not subscriptable")
        return I.unk("subscript " + c.kind)
    if isinstance(o, (Ext, Cls)):
        return o          # typing generics
    if isinstance(o, IterV) and o.items is not None:
        return seq_get(I, list(o.items), k, Tup)
    if isinstance(o, (Fn, Bound, Partial)):
        I.raise_("TypeError", "not subscriptable")
    return I.unk("subscript")


def seq_get(I, items, k, mkseq):
    if any(isinstance(x, T) and x.op == "lmark" for x in items):
        return I.unk("list read in symbolic loop")
    if isinstance(k, T):
        n = tm.num(k)
        if n is not None:
            if n.denominator != 1:
                I.raise_("TypeError")
            n = int(n)
            if not -len(items) <= n < len(items):
                I.raise_("IndexError", "list index out of range")
            return items[n]
        if I.kind(k) in ("float", "none", "str") and k.op == "atom":
            I.raise_("TypeError", "indices must be integers")
        if not items:
            I.raise_("IndexError")
        if all(isinstance(x, T) for x in items):
            return case(k, *items)
        r = items[-1]
        for j in range(len(items) - 2, -1, -1):
            r = I.join(tm.eq(k, const(j)), items[j], r)
        return r
    if isinstance(k, SliceV):
        def val(x):
            return None if x is NONE else (int(tm.num(x)) if isinstance(x, T) and tm.num(x) is not None else "sym")
        a, b, c = val(k.start), val(k.stop), val(k.step)
        if "sym" in (a, b, c):
            return I.unk("symbolic list slice")
        return mkseq(items[slice(a, b, c)])
    if isinstance(k, (Tup, Ref)):
        I.raise_("TypeError", "list indices must be integers or slices")
    return I.unk("seq index")


def dict_get(I, c, k):
    for kk, v in c.items:
        if kk == k or (isinstance(kk, T) and kk is k):
            return v
    if isinstance(k, T) and tm.is_const(k) and all(isinstance(kk, T) and tm.is_const(kk) for kk, _ in c.items):
        I.raise_("KeyError", str(k))
    if isinstance(k, T) and c.items and all(isinstance(kk, T) for kk, _ in c.items):
        r = None
        unknown = False
        for kk, v in reversed(c.items):
            d = I.decide(tm.eq(kk, k)) if I.is_numeric(kk) and I.is_numeric(k) else None
            if d is True:
                return v
            if d is None:
                unknown = True
        if unknown:
            return I.unk("dict lookup symbolic key")
        I.raise_("KeyError", str(k))
    if not c.items:
        I.raise_("KeyError")
    return I.unk("dict lookup")


def arr_get(I, o, k):
    shape, elem, dt, mask = as_array(I, o)
    keys = expand_key(I, k, len(shape))
    if mask is not None:
        # compressed array
        if len(keys) >= 1 and all(isinstance(x, SliceV) and x.start is NONE and x.stop is NONE and x.step is NONE for x in keys):
            return o
        if len(keys) == 1 and is_arrayish(I, keys[0]) and as_array(I, keys[0])[2] == "bool":
            s2, e2, d2, m2 = as_array(I, keys[0])
            if m2 is mask:
                m = tm.and_(mask, e2)
                I.masknd[m] = I_masknd(I, mask, shape)
                return I.alloc(Arr(shape, elem, dt, m))
        shape, elem, dt, mask = unmask(I, (shape, elem, dt, mask))
        o = I.alloc(Arr(shape, elem, dt, None))
        keys = expand_key(I, k, len(shape))
    if any(isinstance(x, T) and I.kind(x) == "bool" and x.op == "const" for x in keys):
        return I.unk("bool scalar index")
    if all(isinstance(x, (SliceV, T)) for x in keys):
        r = basic_index(I, o, keys)
        if r is None:
            return I.unk("index")
        root, ns, imap = r
        if not ns:
            return tm.subst(as_array(I, root)[1], {IX[j]: imap[j] for j in range(len(imap))})
        return I.alloc(View(root, ns, imap))
    # advanced indexing
    adv = [(j, x) for j, x in enumerate(keys) if not isinstance(x, (SliceV, T))]
    if len(keys) >= 1 and isinstance(keys[0], NonZero) and len(adv) == 1:
        return mask_get(I, shape, elem, dt, keys[0].mask, keys[1:])
    if len(adv) == 1:
        j, x = adv[0]
        s2, e2, d2, m2 = as_array(I, x)
        if d2 == "bool":
            if j == 0:
                return mask_get(I, shape, elem, dt, x, keys[1:])
            if all(isinstance(y, T) for y in keys[:j]) and len(s2) == 1:
                sub = arr_get(I, o, Tup(keys[:j]))
                ss, se, sd, sm = as_array(I, sub)
                return mask_get(I, ss, se, sd, x, keys[j + 1:])
            # mask on an inner axis with leading slices: permute semantics too rare
            return I.unk("mask on inner axis")
    # integer fancy indexing; broadcast index arrays
    idxp = []
    pos = []
    rest = []
    for j, x in enumerate(keys):
        if isinstance(x, SliceV):
            rest.append((j, x))
        else:
            idxp.append(as_array(I, x))
            pos.append(j)
            if as_array(I, x)[2] == "bool":
                return I.unk("mixed bool index")
    bs, be, bm = broadcast(I, idxp)
    nb = len(bs)
    contiguous = pos == list(range(pos[0], pos[0] + len(pos)))
    lead = [r for r in rest if r[0] < pos[0]] if contiguous else []
    tail = [r for r in rest if r not in lead]
    nl = len(lead)
    mp = {}
    oshape = []
    n = 0
    for j, s in lead:
        st, sp, ln = norm_slice(I, s, shape[j])
        mp[IX[j]] = tm.add(st, tm.mul(sp, IX[n]))
        oshape.append(ln)
        n += 1
    for j, e in zip(pos, be):
        ee = tm.subst(e, {IX[q]: IX[q + nl] for q in range(nb)}) if nl else e
        mp[IX[j]] = norm_index(I, ee, shape[j])
    oshape.extend(bs)
    n += nb
    for j, s in tail:
        st, sp, ln = norm_slice(I, s, shape[j])
        mp[IX[j]] = tm.add(st, tm.mul(sp, IX[n]))
        oshape.append(ln)
        n += 1
    return new_arr(I, oshape, tm.subst(elem, mp), dt, bm)


def mask_get(I, shape, elem, dt, maskv, rest):
    s2, e2, d2, m2 = as_array(I, maskv)
    n = len(s2)
    if any(not (isinstance(y, SliceV) and y.start is NONE and y.stop is NONE and y.step is NONE) for y in rest):
        r = []
        mp = {}
        q = n
        # trailing ints
        for j, y in enumerate(rest):
            if isinstance(y, T):
                mp[IX[n + j]] = norm_index(I, y, shape[n + j])
            elif isinstance(y, SliceV) and y.start is NONE and y.stop is NONE and y.step is NONE:
                mp[IX[n + j]] = IX[q]
                r.append(shape[n + j])
                q += 1
            else:
                return I.unk("mask index with slice")
        elem = tm.subst(elem, mp)
        shape = tuple(shape[:n]) + tuple(r)
    I.masknd[e2] = n
    return I.alloc(Arr(shape, elem, dt, e2))


def subst_value(I, v, mp):
    v = I.res(v)
    if isinstance(v, T):
        return tm.subst(v, mp)
    if isinstance(v, Tup):
        return Tup([subst_value(I, x, mp) for x in v.items])
    if isinstance(v, Ref):
        c = I.cell(v)
        if c.kind == "arr":
            e = tm.subst(c.elem, mp)
            s = tuple(tm.subst(x, mp) for x in c.shape)
            if e is c.elem and s == c.shape:
                return v
            return I.alloc(Arr(s, e, c.dtype, c.mask))
        if c.kind == "view":
            im = tuple(tm.subst(x, mp) for x in c.imap)
            s = tuple(tm.subst(x, mp) for x in c.shape)
            return I.alloc(View(c.base, s, im))
        if c.kind == "list":
            return I.alloc(Lst([subst_value(I, x, mp) for x in c.items]))
        if c.kind == "symlist":
            return I.alloc(SymLst(tm.subst(c.length, mp), c.var, subst_value(I, c.value, mp)))
        return v
    if isinstance(v, Phi):
        return Phi(tm.subst(v.cond, mp), subst_value(I, v.a, mp), subst_value(I, v.b, mp))
    return v


# ---------------------------------------------------------------- stores
def cast_store(I, dt, e):
    if dt in ("int", "uint8"):
        k = I.kind(e)
        if k in ("int", "bool"):
            return tm.ite(I.truth(e), ONE, ZERO) if k == "bool" and e.op != "const" else e
        if e.op == "nan":
            return e
        return tm.fn("int", e) if not int_valued(I, e) else e
    if dt == "int?":
        # built from numbers that are whole: whether they were written as floats is not known
        k = I.kind(e)
        if k == "bool":
            return tm.ite(I.truth(e), ONE, ZERO)
        if not int_valued(I, e) and e.op != "nan":
            return I.unk("stored into an array of whole numbers")
    if dt == "bool":
        return I.truth(e) if isinstance(e, T) else e
    if dt == "float" and I.kind(e) == "bool":
        return tm.ite(I.truth(e), ONE, ZERO)
    return e


def int_valued(I, e):
    if e.op == "ite":
        return int_valued(I, e.args[1]) and int_valued(I, e.args[2])
    n = tm.num(e)
    if n is not None:
        return n.denominator == 1
    return I.kind(e) in ("int", "bool")


def store_all(I, target, val):
    setitem(I, target, SliceV(NONE, NONE, NONE), val)


def log_write(I, ref, **kw):
    root = ref
    c = I.cell(ref)
    if c.kind == "view":
        root = c.base
    I.emit("write", ref=root.id, **kw)


def setitem(I, o, k, v):
    o, k = I.res(o), I.res(k)
    if isinstance(o, Ref):
        c = I.cell(o)
        if c.kind == "list":
            I.emit("write", ref=o.id)
            n = tm.num(k) if isinstance(k, T) else None
            if n is not None:
                n = int(n)
                if not -len(c.items) <= n < len(c.items):
                    I.raise_("IndexError")
                items = list(c.items)
                items[n] = v
                I.setcell(o, Lst(items))
                return NONE
            if isinstance(k, T):
                items = []
                for j, x in enumerate(c.items):
                    items.append(I.join(tm.eq(k, const(j)), v, x))
                I.setcell(o, Lst(items))
                return NONE
            I.setcell(o, UnkCell("slice store into list"))
            I.unk("slice store into list")
            return NONE
        if c.kind == "dict":
            I.emit("write", ref=o.id, key=k)
            items = [(a, b) for a, b in c.items]
            for j, (a, b) in enumerate(items):
                if a == k:
                    items[j] = (a, v)
                    break
            else:
                items.append((k, v))
            I.setcell(o, Dct(items))
            return NONE
        if c.kind in ("arr", "view"):
            v = I.res(v)
            if isinstance(v, Phi):
                return I.lift([v], lambda x: arr_set(I, o, k, x))
            return arr_set(I, o, k, v)
        if c.kind == "obj":
            m, _ = c.cls.lookup("__setitem__")
            if isinstance(m, Fn):
                return I.call(Bound(m, o), [k, v], {})
            I.raise_("TypeError", "object does not support item assignment")
        if c.kind == "symlist":
            I.emit("write", ref=o.id)
            I.setcell(o, UnkCell("store into symbolic list"))
            I.unk("store into symbolic list")
            return NONE
        return NONE
    if isinstance(o, Tup):
        I.raise_("TypeError", "'tuple' object does not support item assignment")
    if isinstance(o, T) and I.kind(o) in ("int", "float", "none", "str", "bool"):
        I.raise_("TypeError", "does not support item assignment")
    I.emit("unknown-setitem", o=repr(o)[:80])
    return NONE


def delitem(I, o, k):
    o = I.res(o)
    if isinstance(o, Ref):
        c = I.cell(o)
        I.emit("write", ref=o.id)
        if c.kind == "dict":
            I.setcell(o, Dct([(a, b) for a, b in c.items if a != k]))
        elif c.kind == "list" and isinstance(k, T) and tm.num(k) is not None:
            items = list(c.items)
            del items[int(tm.num(k))]
            I.setcell(o, Lst(items))
        else:
            I.unk("del item")


def set_region(I, root, shape, imap, vshape, velem, extra_cond=TRUE):
    """store value (over view indices) into root at imap"""
    c = I.cell(root)
    if c.kind != "arr":
        return
    nd = len(c.shape)
    inv = I.reshapes.get(tuple(imap))
    if inv is not None and len(inv) == len(vshape):
        # a whole reshaped view: every view index is a function of the base indices
        tmp = {IX[i]: mk("tmpix", i) for i in range(len(IX))}
        sub = {mk("tmpix", i): s for i, s in enumerate(inv)}
        v = cast_store(I, c.dtype, tm.subst(tm.subst(velem, tmp), sub))
        cond = I.simp_ix(tm.subst(tm.subst(extra_cond, tmp), sub), c.shape)
        I.setcell(root, Arr(c.shape, put(I, c.shape, cond, v, c.elem), c.dtype, c.mask))
        return
    conds = [extra_cond] if extra_cond is not TRUE else []
    sol = {}
    for d in range(nd):
        m = imap[d]
        ixs = [x for x in tm.walk(m) if x.op == "ix"]
        if not ixs:
            conds.append(("const", d, m))
            continue
        if len(ixs) > 1:
            I.unk("store through non-affine view")
            I.setcell(root, Arr(c.shape, mk("unk", "store", root.id, I.counter), c.dtype, c.mask))
            return
        x = ixs[0]
        dd = tm.to_dict(m)
        kf = dd.get(((x, ONE),))
        rest = tm._poly({mm: cc for mm, cc in dd.items() if mm != ((x, ONE),)})
        if kf is None or x in tm.walk(rest):
            I.unk("store through non-affine view")
            I.setcell(root, Arr(c.shape, mk("unk", "store", root.id, I.counter), c.dtype, c.mask))
            return
        s = tm.div(tm.sub(IX[d], rest), const(kf))
        if x in sol:
            conds.append(("eq", sol[x], s))
        else:
            sol[x] = s
        conds.append(("rng", s, shape[x.args[0]], kf, tm.sub(IX[d], rest)))
    cond = TRUE
    # placeholders: rename view IX first to avoid clashes
    tmp = {IX[i]: mk("tmpix", i) for i in range(len(IX))}
    v = tm.subst(velem, tmp)
    v = tm.subst(v, {mk("tmpix", x.args[0]): s for x, s in sol.items()})
    v = cast_store(I, c.dtype, v)
    cs = []
    for q in conds:
        if isinstance(q, T):
            e = tm.subst(q, tmp)
            e = tm.subst(e, {mk("tmpix", x.args[0]): s for x, s in sol.items()})
            cs.append(e)
        elif q[0] == "const":
            cs.append(tm.eq(IX[q[1]], q[2]))
        elif q[0] == "eq":
            cs.append(tm.eq(q[1], q[2]))
        else:
            cs.append(tm.le(ZERO, q[1]))
            cs.append(tm.lt(q[1], q[2]))
            if abs(q[3]) != 1:
                cs.append(tm.eq(tm.mod(q[4], const(abs(q[3]))), ZERO))
    cond = I.simp_ix(tm.and_(*cs), c.shape)
    e = put(I, c.shape, cond, v, c.elem)
    I.setcell(root, Arr(c.shape, e, c.dtype, c.mask))


def put(I, shape, cond, v, old):
    """ite(cond, v, old) with case-normalisation over constant dimensions"""
    if cond is TRUE:
        return v
    if cond is FALSE:
        return old
    cj = list(cond.args) if cond.op == "and" else [cond]
    for d, n in enumerate(shape):
        k = tm.num(n)
        if k is None or k > 16 or k < 1:
            continue
        hit = None
        for x in cj:
            if x.op == "eq0":
                dd = tm.to_dict(x.args[0])
                kf = dd.get(((IX[d], ONE),))
                if kf and set(dd) <= {((IX[d], ONE),), ()}:
                    nt = -dd.get((), Fraction(0)) / kf
                    if nt.denominator == 1:
                        hit = (x, int(nt))
            if hit:
                break
        if hit:
            rest = tm.and_(*[y for y in cj if y is not hit[0]])
            els = []
            for j in range(int(k)):
                o = tm.subst(old, {IX[d]: const(j)})
                if j == hit[1]:
                    vv = tm.subst(v, {IX[d]: const(j)})
                    rr = tm.subst(rest, {IX[d]: const(j)})
                    o = put(I, shape, rr, vv, o) if rr is not TRUE else vv
                els.append(o)
            return case(IX[d], *els)
    return tm.ite(cond, v, old)


def broadcast_to(I, part, shape):
    s, e, d, m = part
    off = len(shape) - len(s)
    if off < 0:
        # leading 1-dims may be dropped
        if all(tm.num(x) == 1 for x in s[:-off]):
            mp = {IX[k]: ZERO for k in range(-off)}
            mp.update({IX[k]: IX[k + off] for k in range(-off, len(s))})
            return broadcast_to(I, (s[-off:], tm.subst(e, mp), d, m), shape)
        I.raise_("ValueError", "could not broadcast input array")
    mp = {}
    for j in range(len(s)):
        if tm.num(s[j]) == 1:
            mp[IX[j]] = ZERO
        else:
            x, y = s[j], shape[j + off]
            if x is not y:
                r = I.decide(tm.eq(x, y))
                if r is False:
                    I.raise_("ValueError", "could not broadcast input array into shape")
            if off:
                mp[IX[j]] = IX[j + off]
    return tm.subst(e, mp) if mp else e


def arr_set(I, o, k, v):
    shape, elem, dt, mask = as_array(I, o)
    log_write(I, o, key=k)
    keys = expand_key(I, k, len(shape))
    part = as_array(I, v)
    if isinstance(v, T) and I.kind(v) in ("none", "str") :
        part = ((), mk("nan"), "float", None)
    if all(isinstance(x, (SliceV, T)) for x in keys):
        r = basic_index(I, o, keys)
        if r is not None:
            root, ns, imap = r
            if part[3] is not None:
                I.unk("store of compressed array into slice")
                return NONE
            ve = broadcast_to(I, part, ns)
            set_region(I, root, ns, imap, ns, ve)
            return NONE
    adv = [(j, x) for j, x in enumerate(keys) if not isinstance(x, (SliceV, T))]
    mv = None
    if len(adv) == 1:
        j, x = adv[0]
        if isinstance(x, NonZero):
            mv = x.mask
        elif as_array(I, x)[2] == "bool":
            mv = x
        if mv is not None:
            ms, me, md, mm = as_array(I, mv)
            n = len(ms)
            pre, post = keys[:j], keys[j + 1:]
            if all(isinstance(y, T) or full_slice(y) for y in pre + post):
                # view fixed by integer keys, masked on the remaining leading dims
                kk = list(pre) + [SliceV(NONE, NONE, NONE)] * n + list(post)
                r = basic_index(I, o, kk)
                if r is not None:
                    root, ns, imap = r
                    off = sum(1 for y in pre if full_slice(y))
                    mcond = tm.subst(me, {IX[q]: IX[q + off] for q in range(n)}) if off else me
                    if part[3] is not None:
                        if part[3] is me and off == 0:
                            ve = part[1]
                        else:
                            I.unk("masked store of differently masked value")
                            ve = I.unk("masked store")
                    elif not part[0]:
                        ve = part[1]
                    else:
                        # value of shape (count, trailing…)
                        if len(part[0]) <= len(ns) - n - off and off == 0:
                            ve = broadcast_to(I, part, ns[n:])
                            ve = tm.subst(ve, {IX[q]: IX[q + n] for q in range(len(ns) - n)})
                        else:
                            ve = I.unk("masked store of array")
                    set_region(I, root, ns, imap, ns, ve, mcond)
                    return NONE
    # fancy integer store
    root, rshape, imap0 = root_of(I, o)
    if all(not isinstance(x, SliceV) for x in keys) and tuple(imap0) == tuple(IX[:len(rshape)]):
        parts = [as_array(I, x) for x in keys]
        if all(p[2] != "bool" for p in parts):
            bs, be, bm = broadcast(I, parts)
            if len(bs) == 1:
                # find an identity index array
                for d, e in enumerate(be):
                    if e is IX[0] and (not part[0] or part[3] is bm):
                        tmp = {IX[0]: mk("tmpix", 0)}
                        cs = []
                        for d2, e2 in enumerate(be):
                            if d2 == d:
                                continue
                            e3 = tm.subst(tm.subst(e2, tmp), {mk("tmpix", 0): IX[d]})
                            cs.append(tm.eq(IX[d2], e3))
                        if bm is not None:
                            cs.append(tm.subst(tm.subst(bm, tmp), {mk("tmpix", 0): IX[d]}))
                        elif bs[0] is not rshape[d]:
                            cs.append(tm.lt(IX[d], bs[0]))
                        if not part[0]:
                            ve = part[1]
                        else:
                            ve = tm.subst(tm.subst(part[1], tmp), {mk("tmpix", 0): IX[d]})
                        c = I.cell(root)
                        ve = cast_store(I, c.dtype, ve)
                        cond = I.simp_ix(tm.and_(*cs), c.shape)
                        I.setcell(root, Arr(c.shape, put(I, c.shape, cond, ve, c.elem), c.dtype, c.mask))
                        return NONE
            parts = [unmask(I, p) for p in parts]
            if scatter(I, root, rshape, parts, unmask(I, part)) or each(I, root, rshape, parts, unmask(I, part)) \
                    or spread(I, root, rshape, parts, part):
                return NONE
    I.unk("fancy store")
    c = I.cell(root)
    if c.kind == "arr":
        e = as_array(I, v)
        I.setcell(root, Arr(c.shape, mk("unk", "fancy store", root.id, I.counter), c.dtype, c.mask))
    return NONE


def each(I, root, rshape, keys, part):
    """store at a known small number of positions, one after the other"""
    bs, be, bm = broadcast(I, keys)
    if len(bs) != 1 or bm is not None or tm.num(bs[0]) is None or tm.num(bs[0]) > 64 or len(part[0]) > 1:
        return False
    c = I.cell(root)
    elem = c.elem
    for j in range(int(tm.num(bs[0]))):
        mp = {IX[0]: const(j)}
        cs = [tm.eq(IX[d], norm_index(I, tm.subst(e, mp), rshape[d])) for d, e in enumerate(be)]
        ve = part[1] if not part[0] else tm.subst(part[1], mp if tm.num(part[0][0]) != 1 else {IX[0]: ZERO})
        elem = put(I, c.shape, I.simp_ix(tm.and_(*cs), c.shape), cast_store(I, c.dtype, ve), elem)
    I.setcell(root, Arr(c.shape, elem, c.dtype, c.mask))
    return True


def spread(I, root, rshape, keys, part):
    """store of one value at arbitrary positions: every element one of the positions refers to"""
    bs, be, bm = broadcast(I, keys)
    if len(bs) != 1 or bm is not None or any(vague(e) for e in be):
        return False
    part = unmask(I, part)
    ve = part[1]
    if part[0]:
        # a value that only depends on the position it is stored at
        if len(part[0]) != 1 or part[0][0] is not bs[0]:
            return False
        ve = tm.subst(tm.subst(ve, {e: mk("tmpix", d) for d, e in enumerate(be)}), {mk("tmpix", d): IX[d] for d in range(len(be))}) \
            if not any(x is IX[0] for x in tm.walk(tm.subst(ve, {e: mk("tmpix", d) for d, e in enumerate(be)}))) else None
        if ve is None:
            return False
    b = max([tm.max_bv(e) for e in be]) + 1
    bv = mk("bv", b)
    body = tm.and_(*[tm.eq(IX[d], tm.subst(norm_index(I, e, rshape[d]), {IX[0]: bv})) for d, e in enumerate(be)])
    c = I.cell(root)
    cond = mk("red", "any", bs[0], b, body)
    I.setcell(root, Arr(c.shape, put(I, c.shape, I.simp_ix(cond, c.shape), cast_store(I, c.dtype, ve), c.elem), c.dtype, c.mask))
    return True


def scatter(I, root, rshape, keys, part):
    """store at all positions a mask selects, written as index arrays"""
    bs, be, bm = broadcast(I, keys)
    if len(bs) != 1 or bm is not None or len(part[0]) > 1:
        return False
    Ms = {e.args[0] for e in be if e.op == "nth" and e.args[1] is IX[0]}
    if len(Ms) != 1:
        return False
    M = Ms.pop()
    where, cs = {}, []
    for d, e in enumerate(be):
        if e.op == "nth" and e.args[0] is M and e.args[1] is IX[0] and e.args[2] not in where:
            where[e.args[2]] = d
    n = len(M.args[0]) if M.op == "arr" else len(where)
    if sorted(where) != list(range(n)):
        return False
    back = {mk("nth", M, IX[0], a): mk("tmpix", a) for a in range(n)}
    out = {mk("tmpix", a): IX[where[a]] for a in range(n)}
    for d, e in enumerate(be):
        if d in where.values():
            continue
        e = tm.subst(e, back)
        if any(x is IX[0] for x in tm.walk(e)):
            return False
        cs.append(tm.eq(IX[d], tm.subst(e, out)))
    ve = part[1]
    if part[0] and tm.num(part[0][0]) == 1:
        ve = tm.subst(ve, {IX[0]: ZERO})
    elif part[0] and part[0][0] is not bs[0]:
        return False
    ve = tm.subst(ve, back)
    if any(x is IX[0] for x in tm.walk(ve)):
        return False
    ve = tm.subst(ve, out)
    cs.append(I.truth(at(M, [IX[where[a]] for a in range(n)])))
    c = I.cell(root)
    ve = cast_store(I, c.dtype, ve)
    I.setcell(root, Arr(c.shape, put(I, c.shape, I.simp_ix(tm.and_(*cs), c.shape), ve, c.elem), c.dtype, c.mask))
    return True


def full_slice(y):
    return isinstance(y, SliceV) and y.start is NONE and y.stop is NONE and y.step is NONE


def set_array_attr(I, o, name, v):
    I.emit("write", ref=o.id, attr=name)
    if name == "shape":
        r = reshape(I, o, v)
        I.setcell(o, I.cell(r))
    return NONE


# ---------------------------------------------------------------- reductions
def reduce(I, v, name, axis=NONE, keepdims=False):
    shape, elem, dt, mask = as_array(I, v)
    if isinstance(I.res(v), T) and I.kind(v) == "none":
        I.raise_("TypeError", "reduction of None")
    if vague(I.res(v)) and axis is not NONE and axis is not None:
        return I.unk("reduction of unknown")
    if mask is not None:
        return mk("mred", name, tm.arr_term(shape, elem), mask)
    nd = len(shape)
    if axis is NONE or axis is None:
        axes = list(range(nd))
    elif isinstance(axis, Tup):
        axes = sorted(int(tm.num(a)) % nd for a in axis.items)
    else:
        n = tm.num(axis)
        if n is None:
            return I.unk("reduce axis")
        if not -nd <= n < nd:
            I.raise_("ValueError", "axis out of bounds")
        axes = [int(n) % nd]
    e = elem
    sh = list(shape)
    if name == "mean":
        cnt = tm.mul(*[shape[a] for a in axes]) if axes else ONE
        r = reduce(I, v, "sum", axis, keepdims)
        return binop(I, "Div", r, cnt)
    if name in ("std", "var", "median", "ptp", "prod", "argmin", "argmax") and not (name == "prod"):
        body = tm.arr_term(shape, elem)
        if name in ("argmin", "argmax"):
            if axis is NONE or axis is None:
                return mk("argred", name, body)
            a = axes[0]
            red = argred(name, shape[a], e, a, nd)
            sh.pop(a)
            return new_arr(I, sh, red, "int")
        if axis is NONE or axis is None:
            return mk("fn", name, body)
        return I.unk("reduce " + name)
    for a in reversed(axes):
        e = reduce1(I, name, sh[a], e, a, len(sh))
        sh.pop(a)
    if keepdims:
        for a in axes:
            mp = {IX[k]: IX[k + 1] for k in range(a, len(sh))}
            e = tm.subst(e, mp)
            sh.insert(a, ONE)
    if not sh:
        return e
    odt = {"any": "bool", "all": "bool"}.get(name, dt if dt != "bool" else "int")
    return new_arr(I, sh, e, odt)


def argred(name, dim, elem, axis, ndim):
    b = tm.max_bv(elem) + 1
    mp = {IX[axis]: mk("bv", b)}
    for k in range(axis + 1, ndim):
        mp[IX[k]] = IX[k - 1]
    return mk("argred", name, dim, b, tm.subst(elem, mp))


def reduce1(I, name, dim, e, axis, nd):
    k = tm.num(dim)
    if k is not None and k <= 64:
        if k == 0:
            if name in ("min", "max"):
                I.raise_("ValueError", "zero-size array to reduction")
            return {"sum": ZERO, "prod": ONE, "any": FALSE, "all": TRUE}.get(name, mk("nan"))
        sh = {IX[j]: IX[j - 1] for j in range(axis + 1, nd)}
        xs = []
        for j in range(int(k)):
            mp = dict(sh)
            mp[IX[axis]] = const(j)
            xs.append(tm.subst(e, mp))
        if name == "sum":
            return tm.add(*[boolnum(I, x) for x in xs])
        if name == "prod":
            return tm.mul(*[boolnum(I, x) for x in xs])
        if name in ("min", "max"):
            r = tm.minmax(name, *xs)
            return I._mm(r) if r.op in ("min", "max") else r
        if name == "any":
            return tm.or_(*[I.truth(x) for x in xs])
        if name == "all":
            return tm.and_(*[I.truth(x) for x in xs])
    if not any(x is IX[axis] for x in tm.walk(e)):
        sh = {IX[j]: IX[j - 1] for j in range(axis + 1, nd)}
        e2 = tm.subst(e, sh)
        if name == "sum":
            return tm.mul(boolnum(I, e2), dim)
        if name in ("min", "max"):
            return e2
        if name in ("any", "all"):
            return I.truth(e2)
    if name == "sum":
        e = boolnum(I, e)
    if name in ("any", "all"):
        e = I.truth(e)
    return tm.reduce_term(name, dim, e, axis, nd)


def boolnum(I, x):
    if I.kind(x) == "bool" and x.op != "const":
        return tm.ite(I.truth(x), ONE, ZERO)
    return x


def dot(I, a, b):
    if vague(a) or vague(b):
        return I.unk("dot of unknown")
    sa, ea, da, ma = as_array(I, a)
    sb, eb, db, mb = as_array(I, b)
    if not sa or not sb:
        return binop(I, "Mult", a, b)
    if ma is not None or mb is not None:
        if mb is None and ma is not None and len(sb) == 1:
            pass
        else:
            return I.unk("dot masked")
    na, nb = len(sa), len(sb)
    ka, kb = sa[-1], (sb[0] if nb == 1 else sb[-2])
    if tm.num(ka) is not None and tm.num(kb) is not None and tm.num(ka) != tm.num(kb):
        I.raise_("ValueError", "shapes not aligned")
    n = ka if tm.num(ka) is not None else kb
    oshape = list(sa[:-1]) + [d for j, d in enumerate(sb) if j != (0 if nb == 1 else nb - 2)]
    no = len(oshape)
    kvar = mk("tmpk")
    mpa = {IX[na - 1]: kvar}
    ea2 = tm.subst(ea, mpa)
    mpb = {}
    q = na - 1
    for j in range(nb):
        if j == (0 if nb == 1 else nb - 2):
            mpb[IX[j]] = kvar
        else:
            mpb[IX[j]] = IX[q]
            q += 1
    eb2 = tm.subst(eb, mpb)
    prod = tm.mul(boolnum(I, ea2), boolnum(I, eb2))
    c = tm.num(n)
    if c is not None and c <= 64:
        e = tm.add(*[tm.subst(prod, {kvar: const(j)}) for j in range(int(c))])
    else:
        bvn = tm.max_bv(prod) + 1
        e = mk("red", "sum", n, bvn, tm.subst(prod, {kvar: mk("bv", bvn)}))
    dt = "float" if "float" in (da, db) else ("int" if da == db == "int" else "int?" if {da, db} <= {"int", "int?"} else None)
    if not oshape:
        return e
    return new_arr(I, oshape, e, dt, ma)


def reshape(I, v, newshape, share=True):
    shape, elem, dt, mask = as_array(I, v)
    ns = shape_arg(I, newshape)
    if ns is None:
        return I.unk("reshape")
    if mask is not None:
        return I.unk("reshape masked")
    total = tm.mul(*shape) if shape else ONE
    if any(tm.num(x) == -1 for x in ns):
        other = tm.mul(*[x for x in ns if tm.num(x) != -1]) if len(ns) > 1 else ONE
        ns = [tm.div(total, other) if tm.num(x) == -1 else x for x in ns]
    nt = tm.mul(*ns) if ns else ONE
    if nt is not total:
        if tm.num(nt) is not None and tm.num(total) is not None or (I.decide(tm.eq(nt, total)) is False):
            I.raise_("ValueError", "cannot reshape array")
    if tuple(ns) == tuple(shape):
        if share and is_arrayish(I, v):
            root, _, imap = root_of(I, v)
            return I.alloc(View(root, shape, imap))
        return new_arr(I, shape, elem, dt)
    # strip common trailing dims
    os, nn = list(shape), list(ns)
    tail = 0
    while os and nn and os[-1] is nn[-1]:
        os.pop()
        nn.pop()
        tail += 1
    flat = ZERO
    for d, n in enumerate(nn):
        flat = tm.add(tm.mul(flat, n), IX[d])
    mp = {}
    rem = flat
    for d in range(len(os) - 1, -1, -1):
        if d == 0:
            mp[IX[0]] = rem
        else:
            mp[IX[d]] = tm.mod(rem, os[d])
            rem = tm.floordiv(rem, os[d])
    for t in range(tail):
        mp[IX[len(os) + t]] = IX[len(nn) + t]
    if share and is_arrayish(I, v) and contiguous(I, v):
        # the reshaped array shares the memory of the original one
        root, _, imap = root_of(I, v)
        im = tuple(tm.subst(m, mp) for m in imap)
        if tuple(imap) == tuple(IX[:len(imap)]):
            back = ZERO
            for d, n in enumerate(shape):
                back = tm.add(tm.mul(back, n), IX[d])
            inv = []
            for d in range(len(ns) - 1, -1, -1):
                inv.append(back if d == 0 else tm.mod(back, ns[d]))
                back = tm.floordiv(back, ns[d])
            I.reshapes[im] = tuple(inv[::-1])
        return I.alloc(View(root, ns, im))
    return new_arr(I, ns, tm.subst(elem, mp), dt)


def contiguous(I, v):
    """is the array stored without gaps in row-major order?  None: unknown"""
    c = I.cell(v)
    if c.kind != "view":
        return True
    base = I.cell(c.base)
    if base.kind != "arr" or len(c.imap) != len(base.shape):
        return None
    one = {IX[d]: ZERO for d, n in enumerate(c.shape) if tm.num(n) == 1}
    flat = ZERO
    for m, n in zip(c.imap, base.shape):
        flat = tm.add(tm.mul(flat, n), m)
    own = ZERO
    for d, n in enumerate(c.shape):
        own = tm.add(tm.mul(own, n), IX[d])
    diff = tm.subst(tm.sub(flat, own), one)
    ixs = [x for x in tm.walk(diff) if x.op == "ix"]
    if not ixs:
        return True
    if all(tm.num(n) is not None for n in tuple(c.shape) + tuple(base.shape)):
        return True if any(tm.num(n) == 0 for n in c.shape) else False
    return None


def shape_arg(I, s):
    s = I.res(s)
    if isinstance(s, T):
        if I.kind(s) in ("none",):
            return []
        return [s]
    items = I.known_items(s)
    if items is None:
        return None
    out = []
    for x in items:
        x = I.res(x)
        if not isinstance(x, T):
            return None
        out.append(x)
    return out


def transpose(I, v, axes=None):
    shape, elem, dt, mask = as_array(I, v)
    nd = len(shape)
    ax = list(axes) if axes is not None else list(range(nd))[::-1]
    mp = {IX[ax[k]]: IX[k] for k in range(nd)}
    root, sh, imap = root_of(I, v) if is_arrayish(I, v) else (None, None, None)
    ns = [shape[a] for a in ax]
    if root is not None:
        return I.alloc(View(root, ns, tuple(tm.subst(m, mp) for m in imap)))
    return new_arr(I, ns, tm.subst(elem, mp), dt)


def concat(I, seq, axis=0):
    items = I.known_items(seq)
    if items is None:
        if isinstance(I.res(seq), Ref) and I.cell(I.res(seq)).kind == "symlist":
            return I.unk("concatenate symbolic list")
        return I.unk("concatenate")
    parts = [as_array(I, x) for x in items]
    nd = len(parts[0][0])
    if any(not p[0] and vague(p[1]) for p in parts):
        return I.unk("concatenation of unknown")
    if any(len(p[0]) != nd for p in parts):
        I.raise_("ValueError", "dimensions must match")
    if nd == 0:
        I.raise_("ValueError", "zero-dimensional arrays cannot be concatenated")
    if axis < 0:
        axis += nd
    if axis >= nd:
        I.raise_("ValueError", "axis out of bounds")
    for d in range(nd):
        if d == axis:
            continue
        for p in parts[1:]:
            if p[0][d] is not parts[0][0][d] and I.decide(tm.eq(p[0][d], parts[0][0][d])) is False:
                I.raise_("ValueError", "all the input array dimensions must match exactly")
    off = ZERO
    offs = []
    for p in parts:
        offs.append(off)
        off = tm.add(off, p[0][axis])
    tot = tm.num(off)
    shp = list(parts[0][0])
    for d in range(nd):
        if d != axis:
            for p in parts:
                if tm.num(p[0][d]) is not None:
                    shp[d] = p[0][d]
    shp[axis] = off
    if tot is not None and tot <= 32:
        els = []
        for p, o in zip(parts, offs):
            for j in range(int(tm.num(p[0][axis]))):
                els.append(tm.subst(p[1], {IX[axis]: const(j)}))
        e = case(IX[axis], *els) if els else mk("unk", "empty")
    else:
        e = None
        for p, o in reversed(list(zip(parts, offs))):
            if tm.num(p[0][axis]) == 0:
                continue
            x = tm.subst(p[1], {IX[axis]: tm.sub(IX[axis], o)})
            if e is None:
                e = x
            else:
                e = tm.ite(tm.lt(IX[axis], tm.add(o, p[0][axis])), x, e)
        if e is None:
            e = mk("unk", "empty")
    dts = {p[2] for p in parts if tm.num(p[0][axis]) != 0} or {"float"}
    dt = dts.pop() if len(dts) == 1 else ("float" if "float" in dts else None)
    return new_arr(I, shp, e, dt)


def stack(I, seq, axis=0):
    items = I.known_items(seq)
    if items is None:
        return I.unk("stack")
    parts = [as_array(I, x) for x in items]
    nd = len(parts[0][0])
    if axis < 0:
        axis += nd + 1
    els = []
    mp = {IX[k]: IX[k + 1] for k in range(axis, nd)}
    for p in parts:
        els.append(tm.subst(p[1], mp) if mp else p[1])
    sh = list(parts[0][0])
    sh.insert(axis, const(len(parts)))
    return new_arr(I, sh, case(IX[axis], *els), parts[0][2])


# ---------------------------------------------------------------- strings
def percent_format(I, a, vals):
    """%-formatting with a constant template"""
    if a.op != "const":
        return mk("strof", mk("fn", "str.%", a, *[to_str(I, v, "s", None) for v in vals]))
    parts, pos, k = [], 0, 0
    s = a.args[1]
    for m in re.finditer(r"%([-#0 +]*\d*(?:\.\d+)?)([a-zA-Z%])", s):
        parts.append(const(s[pos:m.start()]))
        pos = m.end()
        if m.group(2) == "%":
            parts.append(const("%"))
            continue
        if k >= len(vals):
            I.raise_("TypeError", "not enough arguments for format string")
        v = vals[k]
        k += 1
        f, c = m.groups()
        spec = None if c in "sri" or (c == "d" and not f) else const(f + c)
        parts.append(to_str(I, v, "r" if c == "r" else "s", const(f + c) if f and spec is None else spec))
    parts.append(const(s[pos:]))
    if k < len(vals) and not (len(vals) == 1 and k == 0 and isinstance(vals[0], Ref)):
        I.raise_("TypeError", "not all arguments converted during string formatting")
    return mkstr(parts)


def brace_format(I, a, args, kw):
    """str.format with a constant template; None if the template needs more than names and positions"""
    if a.op != "const":
        return None
    parts, auto = [], 0
    try:
        fields = list(string.Formatter().parse(a.args[1]))
    except ValueError:
        I.raise_("ValueError", "format template")
    for lit, name, spec, conv in fields:
        if lit:
            parts.append(const(lit))
        if name is None:
            continue
        m = re.match(r"^(\w*)((?:\.\w+)*)$", name)
        if m is None or (spec and "{" in spec):
            return None
        key = m.group(1)
        if key == "":
            key, auto = str(auto), auto + 1
        if key.isdigit():
            if int(key) >= len(args):
                I.raise_("IndexError", "Replacement index out of range")
            v = args[int(key)]
        else:
            if key not in kw:
                I.raise_("KeyError", key)
            v = kw[key]
        for at in m.group(2).split(".")[1:]:
            v = I.getattr(v, at)
        parts.append(to_str(I, v, "r" if conv == "r" else "s", const(spec) if spec else None))
    return mkstr(parts)


def mkstr(parts):
    out = []
    for p in parts:
        ps = p.args if isinstance(p, T) and p.op == "fstr" else (p,)
        for q in ps:
            if out and q.op == "const" and out[-1].op == "const":
                out[-1] = const(out[-1].args[1] + q.args[1])
            elif q.op == "const" and q.args[1] == "":
                continue
            else:
                out.append(q)
    if not out:
        return const("")
    if len(out) == 1 and out[0].op == "const":
        return out[0]
    return mk("fstr", *out)


def to_str(I, v, conv="s", spec=None):
    v = I.res(v)
    if isinstance(v, Phi):
        return I.lift([v], lambda x: to_str(I, x, conv, spec))
    if isinstance(v, T):
        if v.op == "const":
            if isinstance(v.args[1], str):
                return v if conv == "s" else const(repr(v.args[1]))
            return const(str(v.args[1]))
        if v.op == "fstr" and conv == "s":
            return v
        n = tm.num(v)
        if spec is None and n is not None and n.denominator == 1:
            return const(str(int(n)))
        if v.op == "ite" and all(I.kind(x) == "str" for x in v.args[1:]):
            return v
        return mk("strof", conv, v, spec if spec is not None else NONE)
    if isinstance(v, Tup):
        ps = [const("(")]
        for j, x in enumerate(v.items):
            if j:
                ps.append(const(", "))
            ps.append(to_str(I, x, "r"))
        if len(v.items) == 1:
            ps.append(const(","))
        ps.append(const(")"))
        return mkstr(ps)
    if isinstance(v, Ref):
        c = I.cell(v)
        if c.kind == "obj":
            for m in (("__str__", "__repr__") if conv == "s" else ("__repr__",)):
                f, _ = c.cls.lookup(m)
                if isinstance(f, Fn):
                    return I.call(Bound(f, v), [], {})
            return mk("strof", conv, mk("objid", v.id), NONE)
        if c.kind == "list":
            ps = [const("[")]
            for j, x in enumerate(c.items):
                if j:
                    ps.append(const(", "))
                ps.append(to_str(I, x, "r"))
            ps.append(const("]"))
            return mkstr(ps)
        if c.kind == "dict":
            ps = [const("{")]
            for j, (k, x) in enumerate(c.items):
                if j:
                    ps.append(const(", "))
                ps.append(to_str(I, k, "r"))
                ps.append(const(": "))
                ps.append(to_str(I, x, "r"))
            ps.append(const("}"))
            return mkstr(ps)
        return mk("strof", conv, I.vn(v), NONE)
    return mk("strof", conv, I.vn(v), NONE)


# ---------------------------------------------------------------- attributes of builtin values
ARR_METHODS = set("""min max sum mean std var prod any all argmin argmax dot reshape copy astype flatten ravel transpose
item tolist fill sort argsort squeeze round clip nonzero cumsum cumprod take repeat conj view swapaxes diagonal put
searchsorted ptp byteswap tobytes trace""".split())
NP_SCALAR_ATTR = {"shape", "ndim", "size", "dtype", "T", "real", "imag", "flat", "strides", "nbytes", "itemsize"} | ARR_METHODS


def ref_attr(I, o, c, name):
    if c.kind in ("arr", "view"):
        shape, elem, dt, mask = as_array(I, o)
        if name == "shape":
            if mask is not None:
                return Tup([masked_count(I, mask, shape)] + list(shape[I_masknd(I, mask, shape):]))
            return Tup(shape)
        if name == "ndim":
            return const(len(shape)) if mask is None else const(len(shape) - I_masknd(I, mask, shape) + 1)
        if name == "size":
            return tm.mul(*shape) if mask is None else tm.mul(masked_count(I, mask, shape), *shape[I_masknd(I, mask, shape):])
        if name == "dtype":
            return DType(dt or "float")
        if name == "T":
            return transpose(I, o)
        if name == "real":
            return o
        if name in ARR_METHODS:
            return ExtBound(o, name)
        if name == "flat":
            return reshape(I, o, const(-1))
        I.raise_("AttributeError", "numpy.ndarray has no attribute " + name)
    if c.kind in ("list", "symlist"):
        if name in ("append", "extend", "insert", "pop", "remove", "sort", "reverse", "index", "count", "copy", "clear"):
            return ExtBound(o, name)
        I.raise_("AttributeError", "'list' object has no attribute '%s'" % name)
    if c.kind == "dict":
        if name in ("keys", "values", "items", "get", "pop", "update", "setdefault", "copy", "clear", "popitem"):
            return ExtBound(o, name)
        I.raise_("AttributeError", "'dict' object has no attribute '%s'" % name)
    if c.kind == "set":
        return ExtBound(o, name)
    if c.kind == "ext":
        if c.cls == "numpy.random.Generator" and name not in RNG_METHODS and name not in ("bit_generator", "spawn", "bytes"):
            I.raise_("AttributeError", "Generator has no attribute " + name)
        return ExtBound(o, name)
    return I.unk("attr of " + c.kind)


def I_masknd(I, mask, shape):
    n = I.masknd.get(mask)
    if n is not None:
        return n
    ix = [x.args[0] for x in tm.walk(mask) if x.op == "ix"]
    return (max(ix) + 1) if ix else 1


def value_attr(I, o, name):
    if isinstance(o, T):
        if o.op in ("unk", "uf", "lpre", "mu", "lmark", "truth"):
            if o.op == "uf" and o.args and o.args[0] == "opaque":
                return I.unk("attr of opaque")
            if I.kind(o) in ("int", "float"):
                I.raise_("AttributeError", name)
            return I.unk("attr of unknown")
        k = I.kind(o)
        if k == "str":
            if hasattr("", name):
                return ExtBound(o, name)
            I.raise_("AttributeError", name)
        if k == "none":
            I.raise_("AttributeError", "'NoneType' object has no attribute '%s'" % name)
        if o.op in ("sel", "red", "argred", "min", "max", "ite", "poly", "mred", "draw", "fn", "abs", "case", "norm") or k == "npint":
            # numpy scalar or python number
            if name in ("ndim",):
                return ZERO
            if name == "shape":
                return Tup(())
            if name == "size":
                return ONE
            if name in NP_SCALAR_ATTR and pyfloat(o) is False:
                return ExtBound(o, name)
        if k in ("int", "float", "bool") and name in ("real",):
            return o
        if k in ("float",) and name in ("is_integer", "hex", "as_integer_ratio"):
            return ExtBound(o, name)
        if k == "any":
            return I.unk("attr of any")
        I.raise_("AttributeError", "'%s' object has no attribute '%s'" % (k, name))
    if isinstance(o, Tup):
        if name in ("index", "count"):
            return ExtBound(o, name)
        I.raise_("AttributeError", "'tuple' object has no attribute '%s'" % name)
    if isinstance(o, Exc):
        if name == "args":
            return Tup(o.args)
        I.raise_("AttributeError", name)
    if isinstance(o, RangeV):
        if name == "start":
            return o.start
        if name == "stop":
            return o.stop
        I.raise_("AttributeError", name)
    if isinstance(o, DType):
        return const(o.name) if name == "name" else I.unk("dtype attr")
    if isinstance(o, (ExtBound, Prop)):
        return I.unk("attr")
    if isinstance(o, (IterV, NonZero)):
        I.raise_("AttributeError", name)
    return I.unk("attr of " + type(o).__name__)


def pyfloat(o):
    """True when certainly a plain python number (not a numpy scalar)"""
    if o.op == "atom" or tm.is_const(o):
        return True
    if o.op == "poly":
        return all(a.op == "atom" for m, c in o.args[0] for a, e in m)
    return False


# ---------------------------------------------------------------- methods
RNG_METHODS = set("""uniform normal binomial geometric poisson exponential lognormal choice random integers standard_normal
permutation shuffle beta gamma laplace logistic multivariate_normal triangular weibull standard_exponential permuted""".split())


def call_method(I, recv, name, args, kw):
    recv = I.res(recv)
    if isinstance(recv, Phi):
        return I.lift([recv], lambda r: I.call(I.getattr(r, name), args, kw))
    if isinstance(recv, Ref):
        c = I.cell(recv)
        if c.kind in ("arr", "view"):
            return arr_method(I, recv, name, args, kw)
        if c.kind == "list":
            return list_method(I, recv, c, name, args, kw)
        if c.kind == "dict":
            return dict_method(I, recv, c, name, args, kw)
        if c.kind == "ext":
            return ext_method(I, recv, c, name, args, kw)
        if c.kind == "set":
            if name == "add":
                items = [x for x in c.items if x != args[0]] + [args[0]]
                I.setcell(recv, SetC(items))
                return NONE
            return I.unk("set method")
        if c.kind == "symlist":
            if name == "append":
                I.setcell(recv, UnkCell("append to symbolic list"))
                return NONE
            return I.unk("symlist method")
        return I.unk("method")
    if isinstance(recv, T):
        if I.kind(recv) == "str":
            return str_method(I, recv, name, args, kw)
        if name in ("item", "copy", "real", "conj", "squeeze", "tolist"):
            return recv
        if name in ("min", "max", "sum", "mean", "round", "clip", "any", "all", "prod"):
            return MODELS["numpy." + name](I, [recv] + args, kw)
        if name == "astype":
            return cast_to(I, recv, args[0])
        if name in ("reshape", "flatten", "ravel"):
            r = I.alloc(Arr((ONE,), recv, None))
            return r if name != "reshape" else reshape(I, r, Tup(args) if len(args) > 1 else args[0])
        if name == "is_integer":
            return tm.eq(tm.fn("floor", recv), recv)
    if isinstance(recv, Tup):
        if name == "index":
            for j, x in enumerate(recv.items):
                if I.truth(compare(I, "Eq", x, args[0])) is TRUE:
                    return const(j)
        return I.unk("tuple method")
    return I.unk("method %s" % name)


def opt(args, kw, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kw.get(name, default)


def dtype_name(I, d):
    d = I.res(d)
    if isinstance(d, DType):
        return d.name
    if isinstance(d, Ext):
        n = d.name.split(".")[-1]
    elif isinstance(d, T) and d.op == "const" and isinstance(d.args[1], str):
        n = d.args[1]
    else:
        return None
    if n in ("int", "int8", "int16", "int32", "int64", "uint16", "uint32", "uint64", "int_", "integer", "intp"):
        return "int" if n in ("int", "int64", "int_", "integer", "intp") else n
    if n in ("float", "float64", "float32", "double", "float_", "float16", "longdouble"):
        return "float"
    if n in ("bool", "bool_"):
        return "bool"
    if n in ("uint8", "ubyte", "u1"):
        return "uint8"
    return n


NARROW = {"uint8", "int8", "int16", "uint16", "int32", "uint32"}


def cast_elem(I, e, d):
    if d in ("int",) or d in NARROW:
        k = I.kind(e)
        if k == "bool":
            return tm.ite(I.truth(e), ONE, ZERO) if e.op != "const" else (ONE if e is TRUE else ZERO)
        r = e if int_valued(I, e) else tm.fn("int", e)
        if d in NARROW and tm.num(r) is not None and tm.num(r).denominator == 1:
            bits = 8 * int({"uint8": 1, "int8": 1, "int16": 2, "uint16": 2, "int32": 4, "uint32": 4}[d])
            v = int(tm.num(r)) % 2 ** bits
            return tm.const(v - 2 ** bits if d[0] == "i" and v >= 2 ** (bits - 1) else v)
        if d in NARROW and tm.num(r) is None:
            lo, hi, _, _ = I.bounds(r)
            mx = {"uint8": 255, "int8": 127, "int16": 32767, "uint16": 65535, "int32": 2 ** 31 - 1, "uint32": 2 ** 32 - 1}[d]
            if not (lo is not None and lo >= 0 and hi is not None and hi <= mx):
                r = mk("fn", "wrap_" + d, r)
        return r
    if d == "bool":
        return I.truth(e)
    if d == "float" and I.kind(e) == "bool":
        return tm.ite(I.truth(e), ONE, ZERO)
    return e


def cast_to(I, v, d):
    dn = dtype_name(I, d)
    if dn is None:
        return v
    shape, elem, dt, mask = as_array(I, v)
    e = cast_elem(I, elem, dn)
    if dn in NARROW and dn != "uint8":
        I.emit("narrow", dtype=dn, value=tm.arr_term(shape, elem))
        dn2 = "int"
    elif dn == "uint8":
        I.emit("narrow", dtype=dn, value=tm.arr_term(shape, elem))
        dn2 = "uint8"
    else:
        dn2 = dn
    if not shape and mask is None:
        return e
    return new_arr(I, shape, e, dn2, mask)


def arr_method(I, recv, name, args, kw):
    shape, elem, dt, mask = as_array(I, recv)
    if name in ("min", "max", "sum", "mean", "std", "var", "prod", "any", "all", "argmin", "argmax", "round", "clip",
                "cumsum", "argsort", "repeat", "searchsorted", "ptp", "diagonal"):
        m = MODELS.get("numpy." + name)
        if m is None:
            return I.unk("array method " + name)
        return m(I, [recv] + args, kw)
    if name == "dot":
        return dot(I, recv, args[0])
    if name in ("reshape", "flatten", "ravel"):
        order = kw.get("order") if name == "reshape" else opt(args, kw, 0, "order")
        if order is not None and len(shape) > 1 and not (order is const("C")):
            return I.unk("element order")
    if name == "reshape":
        a = [x for x in args]
        s = Tup(a) if len(a) > 1 else (a[0] if a else kw.get("shape"))
        return reshape(I, recv, s)
    if name in ("flatten", "ravel"):
        return reshape(I, recv, const(-1), name == "ravel")
    if name == "copy":
        return new_arr(I, shape, elem, dt, mask)
    if name == "astype":
        d = args[0] if args else kw.get("dtype")
        cp = kw.get("copy", TRUE)
        if cp is not TRUE:
            if cp is not FALSE or dt is None or dt.endswith("?"):
                return I.unk("astype without copy")
            if dtype_name(I, d) == dt:
                return recv
        return cast_to(I, recv, d)
    if name == "view":
        if args or kw:
            return I.unk("array view of another type")
        root, _, imap = root_of(I, recv)
        return I.alloc(View(root, shape, imap)) if mask is None else I.unk("view of compressed array")
    if name == "transpose":
        if args:
            ax = args if len(args) > 1 else I.known_items(args[0])
            return transpose(I, recv, [int(tm.num(a)) for a in ax])
        return transpose(I, recv)
    if name == "swapaxes":
        a, b = int(tm.num(args[0])), int(tm.num(args[1]))
        ax = list(range(len(shape)))
        ax[a], ax[b] = ax[b], ax[a]
        return transpose(I, recv, ax)
    if name == "item":
        if args:
            return getitem(I, recv, args[0] if len(args) == 1 else Tup(args))
        return tm.subst(elem, {IX[k]: ZERO for k in range(len(shape))})
    if name == "tolist":
        n = tm.num(shape[0]) if shape else None
        if n is not None:
            items = []
            for j in range(int(n)):
                x = getitem(I, recv, const(j))
                items.append(arr_method(I, x, "tolist", [], {}) if is_arrayish(I, x) else x)
            return I.alloc(Lst(items))
        I.counter += 1
        lv = mk("lv", I.counter)
        I.lvlen[lv] = shape[0]
        x = getitem(I, recv, lv)
        if is_arrayish(I, x):
            x = arr_method(I, x, "tolist", [], {})
        return I.alloc(SymLst(shape[0], lv, x))
    if name == "fill":
        arr_set(I, recv, SliceV(NONE, NONE, NONE), args[0])
        return NONE
    if name == "sort":
        r = MODELS["numpy.sort"](I, [recv], kw)
        arr_set(I, recv, SliceV(NONE, NONE, NONE), r)
        return NONE
    if name == "squeeze":
        return squeeze(I, recv, args[0] if args else kw.get("axis", NONE))
    if name == "nonzero":
        return NonZero(ew(I, lambda e: I.truth(e), [recv], "bool"))
    return I.unk("array method " + name)


def squeeze(I, v, axis=NONE):
    shape, elem, dt, mask = as_array(I, v)
    if axis is NONE:
        drop = [k for k in range(len(shape)) if tm.num(shape[k]) == 1]
    else:
        axis = I.known_items(axis) if isinstance(I.res(axis), (Tup, Ref)) else [axis]
        if axis is None or any(not isinstance(x, T) or tm.num(x) is None for x in axis):
            return I.unk("squeeze")
        drop = [int(tm.num(x)) % len(shape) if shape else 0 for x in axis]
        for k in drop:
            if tm.num(shape[k]) is None:
                return I.unk("squeeze")
            if tm.num(shape[k]) != 1:
                I.raise_("ValueError", "cannot select an axis to squeeze out which has size not equal to one")
    keep = [k for k in range(len(shape)) if k not in drop]
    mp = {}
    for k in range(len(shape)):
        mp[IX[k]] = IX[keep.index(k)] if k in keep else ZERO
    if is_arrayish(I, v) and mask is None:
        root, _, imap = root_of(I, v)
        return I.alloc(View(root, [shape[k] for k in keep], tuple(tm.subst(m, mp) for m in imap)))
    return new_arr(I, [shape[k] for k in keep], tm.subst(elem, mp), dt, mask)


def list_method(I, recv, c, name, args, kw):
    items = list(c.items)
    if name in ("append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear"):
        I.emit("write", ref=recv.id)
    if name == "append":
        I.setcell(recv, Lst(items + [args[0]]))
        return NONE
    if name == "extend":
        more = I.known_items(args[0])
        if more is None:
            I.setcell(recv, UnkCell("extend"))
            I.unk("extend")
            return NONE
        I.setcell(recv, Lst(items + more))
        return NONE
    if name == "insert" and isinstance(args[0], T) and tm.num(args[0]) is not None:
        items.insert(int(tm.num(args[0])), args[1])
        I.setcell(recv, Lst(items))
        return NONE
    if name == "pop":
        if not items:
            I.raise_("IndexError")
        i = int(tm.num(args[0])) if args and tm.num(args[0]) is not None else -1
        try:
            x = items.pop(i)
        except IndexError:
            I.raise_("IndexError")
        I.setcell(recv, Lst(items))
        return x
    if name == "reverse":
        I.setcell(recv, Lst(items[::-1]))
        return NONE
    if name == "clear":
        I.setcell(recv, Lst(()))
        return NONE
    if name == "copy":
        return I.alloc(Lst(items))
    if name == "sort":
        r = MODELS["sorted"](I, [recv], kw)
        I.setcell(recv, I.cell(r) if isinstance(r, Ref) else UnkCell("sort"))
        return NONE
    if name == "index":
        for j, x in enumerate(items):
            if I.truth(compare(I, "Eq", I.res(x), I.res(args[0]))) is TRUE:
                return const(j)
    return I.unk("list." + name)


def dict_method(I, recv, c, name, args, kw):
    if name == "keys":
        return IterV(items=[k for k, _ in c.items])
    if name == "values":
        return IterV(items=[v for _, v in c.items])
    if name == "items":
        return IterV(items=[Tup((k, v)) for k, v in c.items])
    if name == "get":
        for k, v in c.items:
            if k == args[0]:
                return v
        return args[1] if len(args) > 1 else NONE
    if name == "copy":
        return I.alloc(Dct(c.items))
    I.emit("write", ref=recv.id)
    if name == "pop":
        for k, v in c.items:
            if k == args[0]:
                I.setcell(recv, Dct([(a, b) for a, b in c.items if a != args[0]]))
                return v
        if len(args) > 1:
            return args[1]
        I.raise_("KeyError")
    if name == "update":
        items = list(c.items)
        more = []
        if args:
            d = I.res(args[0])
            if isinstance(d, Ref) and I.cell(d).kind == "dict":
                more = list(I.cell(d).items)
            else:
                I.unk("dict.update")
                I.setcell(recv, UnkCell("dict.update"))
                return NONE
        more += [(const(k), v) for k, v in kw.items()]
        for k, v in more:
            for j, (a, b) in enumerate(items):
                if a == k:
                    items[j] = (a, v)
                    break
            else:
                items.append((k, v))
        I.setcell(recv, Dct(items))
        return NONE
    if name == "setdefault":
        for k, v in c.items:
            if k == args[0]:
                return v
        v = args[1] if len(args) > 1 else NONE
        I.setcell(recv, Dct(list(c.items) + [(args[0], v)]))
        return v
    if name == "clear":
        I.setcell(recv, Dct(()))
        return NONE
    return I.unk("dict." + name)


def str_method(I, recv, name, args, kw):
    if name == "join":
        items = I.known_items(args[0])
        if items is not None:
            ps = []
            for j, x in enumerate(items):
                if j:
                    ps.append(recv)
                ps.append(to_str(I, x, "s"))
            return mkstr(ps)
    if recv.op == "const" and all(isinstance(a, T) and a.op == "const" for a in args) and name in (
            "startswith", "endswith", "lower", "upper", "strip", "replace", "split"):
        r = getattr(recv.args[1], name)(*[a.args[1] for a in args])
        if isinstance(r, list):
            return I.alloc(Lst([const(x) for x in r]))
        return const(r)
    if name == "format":
        r = brace_format(I, recv, args, kw)
        if r is not None:
            return r
        return mkstr([recv] + [to_str(I, a) for a in args] + [to_str(I, v) for k, v in sorted(kw.items())])
    if recv.op == "ite" and args and all(isinstance(a, T) and a.op == "const" for a in args):
        return tm.ite(recv.args[0], str_method(I, recv.args[1], name, args, kw), str_method(I, recv.args[2], name, args, kw))
    if recv.op == "fstr" and name in ("startswith", "endswith") and len(args) == 1 and isinstance(args[0], T) \
            and args[0].op == "const" and isinstance(args[0].args[1], str):
        p = recv.args[0 if name == "startswith" else -1]
        want = args[0].args[1]
        if isinstance(p, T) and p.op == "const" and len(p.args[1]) >= len(want):
            return const(getattr(p.args[1], name)(want))
        if isinstance(p, T) and p.op == "const":
            w = want[:len(p.args[1])] if name == "startswith" else want[len(want) - len(p.args[1]):]
            if w != p.args[1]:
                return FALSE
    return mk("strof", mk("fn", "str." + name, recv))


def ext_method(I, recv, c, name, args, kw):
    if c.cls == "numpy.random.Generator":
        return rng_draw(I, recv, c, name, args, kw)
    return opaque_call(I, "%s.%s" % (c.cls, name), [recv] + args, kw)


RNG_PARAM = {"uniform": ("low", "high", "size"), "normal": ("loc", "scale", "size"), "binomial": ("n", "p", "size"),
             "geometric": ("p", "size"), "poisson": ("lam", "size"), "exponential": ("scale", "size"),
             "lognormal": ("mean", "sigma", "size"), "random": ("size",), "standard_normal": ("size",),
             "integers": ("low", "high", "size"), "choice": ("a", "size", "replace", "p")}
RNG_DEFAULT = {"uniform": {"low": ZERO, "high": ONE}, "normal": {"loc": ZERO, "scale": ONE}, "poisson": {"lam": ONE},
               "exponential": {"scale": ONE}, "lognormal": {"mean": ZERO, "sigma": ONE}}


def rng_draw(I, recv, c, name, args, kw):
    ps = RNG_PARAM.get(name, ())
    b = dict(RNG_DEFAULT.get(name, {}))
    for p, a in zip(ps, args):
        b[p] = a
    for k, v in kw.items():
        if ps and k not in ps and k not in ("dtype", "axis", "shuffle", "endpoint", "method", "out"):
            I.raise_("TypeError", "unexpected keyword " + k)
        b[k] = v
    size = b.get("size", NONE)
    I.counter += 1
    args_vn = tuple((k, I.vn(v)) for k, v in sorted(b.items()) if k != "size")
    d = mk("draw", c.data["name"], I.counter, name, args_vn)
    rng = None
    if name == "binomial":
        n = b.get("n")
        if isinstance(n, T) and tm.num(n) is not None:
            rng = ("rng", Fraction(0), tm.num(n))
    elif name == "random":
        rng = ("rng", Fraction(0), Fraction(1))
    elif name == "geometric":
        rng = ("rng", Fraction(1), None)
    elif name in ("poisson", "exponential", "lognormal"):
        rng = ("rng", Fraction(0), None)
    elif name == "uniform" and isinstance(b.get("low"), T) and isinstance(b.get("high"), T):
        lo, hi = I.bounds(b["low"])[0], I.bounds(b["high"])[1]
        if lo is not None or hi is not None:
            rng = ("rng", lo, hi)
    if rng is not None:
        d = mk("draw", c.data["name"], I.counter, name, args_vn, rng)
    sh = []
    for p in ("low", "high", "loc", "scale", "p", "lam", "mean", "sigma"):
        if p in b and is_arrayish(I, b[p]):
            sh = list(as_array(I, b[p])[0])
    I.emit("draw", gen=recv.id, method=name, args={k: I.vn(v) for k, v in b.items()}, raw=b, term=d)
    if name == "uniform":
        lo, hi = b.get("low"), b.get("high")
        if isinstance(lo, T) and isinstance(hi, T):
            I._addfact(tm.le(lo, d))
            I._addfact(tm.le(d, hi))
    size = I.res(size)
    if name == "choice":
        a = I.res(b.get("a"))
        if size is NONE:
            s, e, dt, m = as_array(I, a) if not isinstance(a, T) else ((a,), IX[0], "int", None)
            items = I.known_items(a) if not isinstance(a, T) else None
            if items and all(not isinstance(I.res(x), T) for x in items):
                return case_value(I, d, items)
            if s:
                return tm.subst(e, {IX[0]: mk("argred", "choice", d)})
            return d
    if name == "shuffle":
        a = args[0]
        I.emit("write", ref=a.id)
        return NONE
    if size is NONE and not sh:
        if name in ("integers", "permutation", "bytes"):
            return d
        return d
    if size is not NONE:
        sh = shape_arg(I, size)
        if sh is None:
            return I.unk("draw size")
    return new_arr(I, sh, tm.sel(d, *IX[:len(sh)]), "int" if name in ("geometric", "poisson", "binomial", "integers") else "float")


def case_value(I, d, items):
    r = items[-1]
    for j in range(len(items) - 2, -1, -1):
        r = I.join(mk("truth", mk("choice", d, j)), items[j], r)
    return r


# ---------------------------------------------------------------- calls of external names
def call_ext(I, name, args, kw):
    m = MODELS.get(name)
    if m is not None:
        args2 = [I.res(a) for a in args]
        kw2 = {k: I.res(v) for k, v in kw.items()}
        if name in NOLIFT or name.startswith("intrinsic."):
            return m(I, args2, kw2)
        keys = list(kw2)
        n = len(args2)
        if any(isinstance(x, Phi) for x in args2) or any(isinstance(x, Phi) for x in kw2.values()):
            return I.lift(args2 + [kw2[k] for k in keys],
                          lambda *v: m(I, list(v[:n]), {k: v[n + j] for j, k in enumerate(keys)}))
        return m(I, args2, kw2)
    if name in EXC_PARENT or name == "BaseException":
        return Exc(Ext(name), tuple(args), I.loc)
    if name.startswith("typing.") or name in ("object.__init__", "super.__init__"):
        return NONE
    if name == "object":
        return I.alloc(ExtObj("object", {}))
    return opaque_call(I, name, args, kw)


NOLIFT = {"copy.deepcopy", "functools.partial", "isinstance", "type", "repr", "str", "print", "warnings.warn", "len",
          "copy.copy", "hasattr", "getattr", "setattr", "callable"}
NOLIFT -= {"len", "hasattr", "getattr", "setattr", "callable", "isinstance", "type", "repr", "str"}


GLOBAL_RANDOM = ("numpy.random.", "random.", "secrets.", "os.urandom", "uuid.", "time.", "datetime.")


def opaque_call(I, name, args, kw):
    """external function without a model: uninterpreted function of its arguments"""
    av = [I.vn(a) for a in args]
    kv = {k: I.vn(v) for k, v in sorted(kw.items())}
    if name.startswith(GLOBAL_RANDOM) or name in ("os.urandom", "id", "hash", "input", "open"):
        I.emit("nondet", name=name, args=av)
        I.counter += 1
        d = mk("draw", "global:" + name, I.counter, name, tuple(av))
        size = kw.get("size", None)
        if size is not None and I.res(size) is not NONE:
            sh = shape_arg(I, size)
            if sh:
                return new_arr(I, sh, tm.sel(d, *IX[:len(sh)]), "float")
        return d
    I.emit("extcall", name=name, args=list(args), kw=dict(kw), vargs=av, vkw=kv)
    I.unsup["opaque:" + name] = I.unsup.get("opaque:" + name, 0) + 1
    return mk("uf", name, tuple(av), tuple((k, v) for k, v in kv.items()))


from . import npfuncs  # noqa: E402,F401  (registers MODELS)
