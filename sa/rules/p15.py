import ast
from ..rulelib import cases
from ..values import *

EXPLANATION = """
Structural conformance of the class hierarchy: for every concrete class of the package and every operation that an interface in
its linearised bases declares (abstract, or a body that only refuses), the attribute that the class really provides must be
implemented and of the same kind, and its signature must bind every shape of call that the interface's signature admits
(k positional arguments and the rest by name, with and without the optional ones, same parameter on both sides).  All calls of
operation names in the package must bind to the declaration of some interface.  In addition the simulation is abstractly
interpreted with stand-ins that offer exactly the interface signatures; a TypeError or AttributeError on any path is a violation.
"""
ANCHOR = "simcats"


def strip(node, method=True):
    a = node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    nd = len(a.defaults)
    req = set(pos[:len(pos) - nd])
    if method and pos:
        req.discard(pos[0])
        pos = pos[1:]
    ponly = [x.arg for x in a.posonlyargs][1 if method else 0:]
    kwo = [x.arg for x in a.kwonlyargs]
    kreq = {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
    return dict(pos=pos, req=req, ponly=set(ponly), kwo=kwo, kreq=kreq, var=a.vararg is not None, kw=a.kwarg is not None)


def bind(s, npos, names):
    """{argument slot: parameter} or the reason why the call is refused"""
    if npos > len(s["pos"]) and not s["var"]:
        return "takes only %d positional arguments" % len(s["pos"])
    got = {}
    for k in range(min(npos, len(s["pos"]))):
        got[s["pos"][k]] = k
    for n in names:
        if n in got:
            return "gets two values for %r" % n
        if (n in s["pos"] and n not in s["ponly"]) or n in s["kwo"]:
            got[n] = n
        elif not s["kw"]:
            return "does not know the parameter %r" % n
    for n in sorted(s["req"] | s["kreq"]):
        if n not in got:
            return "needs the parameter %r" % n
    return got


def shapes(s):
    """all call shapes the declaration admits: (number of positional arguments, names)"""
    out = []
    opt = [p for p in s["pos"] if p not in s["req"]]
    for k in range(len(s["pos"]) + 1):
        rest = [p for p in s["pos"][k:]]
        if set(rest) & s["ponly"]:
            continue
        need = [p for p in rest if p in s["req"]] + sorted(s["kreq"])
        extra = [p for p in rest if p not in s["req"]] + [p for p in s["kwo"] if p not in s["kreq"]]
        out.append((k, need))
        if extra:
            out.append((k, need + extra))
            for e in extra:
                out.append((k, need + [e]))
    return out


def mismatch(decl, impl):
    for k, names in shapes(decl):
        r = bind(impl, k, names)
        if isinstance(r, str):
            return "call with %d positional arguments%s: %s" % (k, " and " + ", ".join(names) if names else "", r)
        for j in range(k):
            p = decl["pos"][j]
            if r.get(p) != j and p in impl["pos"]:
                return "positional argument %d is %r in the interface but %r here" % (j + 1, p, impl["pos"][j] if j < len(impl["pos"]) else "*")
            if j < len(impl["pos"]) and impl["pos"][j] != p:
                return "positional argument %d is %r in the interface but %r here" % (j + 1, p, impl["pos"][j])
    return None


def refuses(fn):
    """the body only documents and refuses"""
    body = [x for x in fn.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)) and not isinstance(x, ast.Pass)]
    if not body:
        return False
    x = body[0]
    if len(body) == 1 and isinstance(x, ast.Raise) and x.exc is not None:
        e = x.exc.func if isinstance(x.exc, ast.Call) else x.exc
        return isinstance(e, ast.Name) and e.id == "NotImplementedError"
    return False


def declares(v):
    if isinstance(v, Fn):
        return "abstract" in v.flags or refuses(v)
    if isinstance(v, Prop):
        return "abstract" in v.flags or (isinstance(v.fget, Fn) and refuses(v.fget))
    return False


def loc(I, v):
    f = v.fget if isinstance(v, Prop) else v
    if isinstance(f, Fn):
        return (f.module.path, f.node.lineno)
    return None


def classes(I):
    out = {}
    for name, m in I.mods.items():
        if not name.startswith("simcats") or m.env is None:
            continue
        for k, v in I.heap[m.env.id].vars.items():
            if isinstance(v, Cls) and v.module is not None and v.module.name.startswith("simcats"):
                out[v.qual] = v
    return out


def exported(I):
    out = set()
    for name, m in I.mods.items():
        if name.startswith("simcats") and m.path.endswith("__init__.py"):
            for v in I.heap[m.env.id].vars.values():
                if isinstance(v, Cls):
                    out.add(v.qual)
    return out


def conformance(R, I):
    cs = classes(I)
    pub = exported(I)
    bases = {b.qual for c in cs.values() for b in c.mro[1:] if isinstance(b, Cls)}
    ops = {}
    for q, c in sorted(cs.items()):
        own = [n for n, v in c.ns.items() if declares(v)]
        for n in own:
            ops.setdefault(n, []).append((c, c.ns[n]))
    for q, c in sorted(cs.items()):
        if any(declares(v) for v in c.ns.values()):
            continue                                        # an interface itself
        names = {}
        for b in c.mro:
            if isinstance(b, Cls):
                for n, v in b.ns.items():
                    if declares(v) and n not in names:
                        names[n] = (b, v)
        if not names or (q in bases and q not in pub):
            continue
        R.analysed.add(q)
        I.scene = c.name
        for n, (b, d) in sorted(names.items()):
            if n == "__init__":
                continue
            v, owner = c.lookup(n)
            what = "%s.%s declared by %s" % (c.name, n, b.name)
            where = loc(I, v) or (c.module.path, c.node.lineno)
            if v is d or declares(v):
                R.add(I, n, "violated", "class hierarchy", what + " is not implemented", (c.module.path, c.node.lineno))
                continue
            if isinstance(d, Prop):
                if isinstance(v, Fn):
                    R.add(I, n, "violated", "class hierarchy", what + " is a property there but a method here", where)
                    continue
                bad = isinstance(v, Prop) and d.fset is not None and v.fset is None
                if bad:
                    R.add(I, n, "violated", "class hierarchy", what + " cannot be assigned here", where)
                else:
                    R.add(I, n, "ok" if isinstance(v, Prop) else "undecided", "same kind of attribute", what, where)
                continue
            if not isinstance(v, Fn) or not isinstance(d, Fn):
                if isinstance(v, Prop):
                    R.add(I, n, "violated", "class hierarchy", what + " is a method there but a property here", where)
                else:
                    R.add(I, n, "undecided", "not a plain function", what, where)
                continue
            if v.flags - {"abstract"}:
                R.add(I, n, "undecided", "decorated", what, where)
                continue
            ds = strip(d.node)
            if ds["var"] or ds["kw"]:
                R.add(I, n, "ok", "declaration admits anything", what, where)
                continue
            m = mismatch(ds, strip(v.node))
            R.add(I, n, "violated" if m else "ok", "signature binding", what + (": " + m if m else ""), where)
    return ops, cs


SELF = ("self", "cls", "super")


def calls(R, I, ops, cs):
    """calls of operation names: at least one declaring interface has to admit the call"""
    I.scene = "calls"
    other = {}
    for c in cs.values():
        for n, v in c.ns.items():
            if n in ops and not any(b is x for b in c.mro for x, _ in ops[n]):
                other.setdefault(n, []).append(c.name)
    for name, m in sorted(I.mods.items()):
        if not name.startswith("simcats") or m.path not in I.sources:
            continue
        tree = ast.parse(I.sources[m.path], m.path)
        for x in ast.walk(tree):
            if not (isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ops):
                continue
            n = x.func.attr
            recv = x.func.value
            decls = [(c, v) for c, v in ops[n] if isinstance(v, Fn)]
            if n.startswith("__") or not decls:
                continue
            if isinstance(recv, ast.Name) and recv.id in SELF:
                continue
            if isinstance(recv, ast.Call) and isinstance(recv.func, ast.Name) and recv.func.id == "super":
                continue
            R.callsites.add((m.path, x.lineno))
            text = ast.unparse(recv)
            where = (m.path, x.lineno)
            if any(isinstance(a, ast.Starred) for a in x.args) or any(k.arg is None for k in x.keywords):
                R.add(I, "%s: %s.%s" % (name, text, n), "undecided", "starred call", "", where)
                continue
            rs = []
            for c, d in decls:
                s = strip(d.node)
                rs.append(bind(s, len(x.args), [k.arg for k in x.keywords]))
            if any(not isinstance(r, str) for r in rs):
                R.add(I, "%s: %s.%s" % (name, text, n), "ok", "admitted by the interface", "", where)
            elif n in other:
                R.add(I, "%s: %s.%s" % (name, text, n), "undecided", "name also used by %s" % ", ".join(other[n]), "", where)
            elif narrowed(tree, x, text):
                R.add(I, "%s: %s.%s" % (name, text, n), "undecided", "receiver narrowed to a class", "", where)
            else:
                R.add(I, "%s: %s.%s" % (name, text, n), "violated", "signature binding",
                      "call %s is not admitted by any interface that declares %s: %s" % (ast.unparse(x)[:120], n, "; ".join(rs)), where)


def narrowed(tree, call, text):
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef, ast.Lambda)) and any(y is call for y in ast.walk(f)):
            for y in ast.walk(f):
                if isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id in ("isinstance", "hasattr", "type") \
                        and y.args and ast.unparse(y.args[0]) == text and "Interface" not in ast.unparse(y):
                    return True
    return False


def check(R):
    I = R.session("comp", "p15")
    n = len(I.obls)
    ops, cs = conformance(R, I)
    calls(R, I, ops, cs)
    R.obls += I.obls[n:]
    del I.obls[n:]
    R.scenarios += 1
    cases(R, I, "p15", "flow", 8)
