"""Abstract values and heap cells of the abstract interpreter."""
from __future__ import annotations
from .terms import T


class Ref:
    """Pointer to a heap cell."""
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("ref", self.id))

    def __repr__(self):
        return "Ref(%d)" % self.id


class Tup:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, Tup) and o.items == self.items

    def __hash__(self):
        return hash(("tup", self.items))

    def __repr__(self):
        return "Tup%r" % (self.items,)


class Phi:
    """cond ? a : b for values that cannot be merged into one term."""
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __eq__(self, o):
        return isinstance(o, Phi) and o.cond is self.cond and o.a == self.a and o.b == self.b

    def __hash__(self):
        return hash(("phi", self.cond, self.a, self.b))

    def __repr__(self):
        return "Phi(%r, %r, %r)" % (self.cond, self.a, self.b)


class Unk:
    """Unknown value (imprecision, never evidence)."""
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "Unk(%s)" % self.why


class _Unbound:
    def __repr__(self):
        return "UNBOUND"


UNBOUND = _Unbound()


class Fn:
    __slots__ = ("node", "module", "env", "cls", "defaults", "kwdefaults", "name", "flags", "qual")

    def __init__(self, node, module, env, cls, defaults, kwdefaults, name, qual):
        self.node, self.module, self.env, self.cls = node, module, env, cls
        self.defaults, self.kwdefaults, self.name, self.qual = defaults, kwdefaults, name, qual
        self.flags = set()

    def __repr__(self):
        return "Fn(%s)" % self.qual


class Bound:
    __slots__ = ("fn", "self")

    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_

    def __eq__(self, o):
        return isinstance(o, Bound) and o.fn is self.fn and o.self == self.self

    def __hash__(self):
        return hash(("bound", id(self.fn), self.self))

    def __repr__(self):
        return "Bound(%r, %r)" % (self.fn, self.self)


class Partial:
    __slots__ = ("fn", "args", "kwargs")

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs

    def __repr__(self):
        return "Partial(%r)" % (self.fn,)


class Prop:
    __slots__ = ("fget", "fset", "flags")

    def __init__(self, fget, fset, flags=()):
        self.fget, self.fset, self.flags = fget, fset, set(flags)


class Wrapped:
    """staticmethod / classmethod"""
    __slots__ = ("kind", "fn")

    def __init__(self, kind, fn):
        self.kind, self.fn = kind, fn


class Cls:
    __slots__ = ("name", "bases", "ns", "module", "node", "mro", "qual")

    def __init__(self, name, bases, ns, module, node, qual):
        self.name, self.bases, self.ns, self.module, self.node, self.qual = name, bases, ns, module, node, qual
        self.mro = _mro(self)

    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, Cls) and name in c.ns:
                return c.ns[name], c
        return None, None

    def is_sub(self, other):
        for c in self.mro:
            if c is other:
                return True
            if isinstance(c, Ext) and isinstance(other, Ext) and c.name == other.name:
                return True
        return False

    def __repr__(self):
        return "Cls(%s)" % self.qual


def _mro(c):
    seqs = []
    for b in c.bases:
        if isinstance(b, Cls):
            seqs.append(list(b.mro))
        else:
            seqs.append([b])
    seqs.append(list(c.bases))
    res = [c]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return res
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            h = seqs[0][0]
        res.append(h)
        for s in seqs:
            if h in s:
                s.remove(h)


class Ext:
    """External name, by dotted path (numpy.min, ValueError, ...)."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(("ext", self.name))

    def __repr__(self):
        return "Ext(%s)" % self.name


class ExtBound:
    """method of a builtin/external value"""
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def __repr__(self):
        return "ExtBound(%r.%s)" % (self.recv, self.name)


class Mod:
    """module of the analysed code base"""
    __slots__ = ("name", "env", "path", "loading")

    def __init__(self, name, path):
        self.name, self.path = name, path
        self.env = None
        self.loading = False

    def __repr__(self):
        return "Mod(%s)" % self.name


class Exc:
    __slots__ = ("cls", "args", "loc")

    def __init__(self, cls, args=(), loc=None):
        self.cls, self.args, self.loc = cls, args, loc      # cls: Ext or Cls

    @property
    def name(self):
        return self.cls.name

    def __repr__(self):
        return "Exc(%s@%s)" % (self.cls.name, self.loc)


class SliceV:
    __slots__ = ("start", "stop", "step")

    def __init__(self, a, b, c):
        self.start, self.stop, self.step = a, b, c


class RangeV:
    __slots__ = ("start", "stop", "step")

    def __init__(self, a, b, c):
        self.start, self.stop, self.step = a, b, c

    def __eq__(self, o):
        return isinstance(o, RangeV) and (o.start, o.stop, o.step) == (self.start, self.stop, self.step)

    def __hash__(self):
        return hash(("range", self.start, self.stop, self.step))


class IterV:
    """lazy sequence: length term + function index-term -> value (or concrete list)."""
    __slots__ = ("length", "get", "items", "guards")

    def __init__(self, length=None, get=None, items=None, guards=None):
        self.length, self.get, self.items, self.guards = length, get, items, guards


class NonZero:
    """tuple of index arrays of a boolean array (np.where(mask)/np.nonzero): usable as an index."""
    __slots__ = ("mask", "comp")

    def __init__(self, mask, comp=None):
        self.mask, self.comp = mask, comp


class DType:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, DType) and o.name == self.name

    def __hash__(self):
        return hash(("dtype", self.name))


class SuperV:
    __slots__ = ("cls", "self")

    def __init__(self, cls, self_):
        self.cls, self.self = cls, self_


# ------------------------------------------------------------------ cells
class Arr:
    """array: shape (tuple of T), element value number over IX[0..n-1]; mask: boolean-compressed array"""
    __slots__ = ("shape", "elem", "dtype", "mask")
    kind = "arr"

    def __init__(self, shape, elem, dtype=None, mask=None):
        self.shape, self.elem, self.dtype, self.mask = tuple(shape), elem, dtype, mask


class View:
    """basic-indexing view: base array and per-base-dim index term over the view's IX"""
    __slots__ = ("base", "shape", "imap")
    kind = "view"

    def __init__(self, base, shape, imap):
        self.base, self.shape, self.imap = base, tuple(shape), tuple(imap)


class Lst:
    __slots__ = ("items",)
    kind = "list"

    def __init__(self, items):
        self.items = tuple(items)


class SymLst:
    """list [value(var) for var in range(length)]"""
    __slots__ = ("length", "var", "value")
    kind = "symlist"

    def __init__(self, length, var, value):
        self.length, self.var, self.value = length, var, value


class Dct:
    __slots__ = ("items",)           # tuple of (key value, value)
    kind = "dict"

    def __init__(self, items):
        self.items = tuple(items)


class SetC:
    __slots__ = ("items",)
    kind = "set"

    def __init__(self, items):
        self.items = tuple(items)


class Obj:
    __slots__ = ("cls", "fields")
    kind = "obj"

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields     # fields: dict (treated as immutable)


class Env:
    __slots__ = ("vars", "parent")
    kind = "env"

    def __init__(self, vars, parent):
        self.vars, self.parent = vars, parent


class ExtObj:
    """instance of an external class (random generator, partial state ...)"""
    __slots__ = ("cls", "data")
    kind = "ext"

    def __init__(self, cls, data):
        self.cls, self.data = cls, data


class UnkCell:
    __slots__ = ("why",)
    kind = "unk"

    def __init__(self, why):
        self.why = why


# ------------------------------------------------------------------ exits
class Exit(Exception):
    pass


class ReturnX(Exit):
    def __init__(self, value):
        self.value = value


class BreakX(Exit):
    pass


class ContinueX(Exit):
    pass


class RaiseX(Exit):
    def __init__(self, exc):
        self.exc = exc


class DeadX(Exit):
    """no continuation: every path left through an exit already in a sink"""


class AnalysisError(Exception):
    """the analysis itself cannot continue (vanished anchor, unsupported construct at top level)"""
