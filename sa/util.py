"""Queries over abstract values used by the rules."""
import terms as T
from terms import Poly, P, ZERO, ONE, ix, map_ix, sym, subst, app
from values import *
import interp
from interp import AbsExc, ObjDictV
import ops


# ---------------------------------------------------------------- snapshots
class Snap:
    """deep immutable picture of a value, by structure"""
    __slots__ = ("kind", "v", "ident")

    def __init__(self, kind, v, ident=None):
        self.kind, self.v, self.ident = kind, v, ident


def snap(v, seen=None, depth=0):
    seen = seen if seen is not None else {}
    if isinstance(v, (ListV, DictV, ObjV)) and id(v) in seen:
        return Snap("ref", id(v))
    if isinstance(v, Arr):
        seen[id(v)] = v
        return Snap("arr", v.data, id(v))
    if isinstance(v, DictV):
        seen[id(v)] = v
        return Snap("dict", {k: snap(x[1], seen, depth + 1) for k, x in v.d.items()}, id(v))
    if isinstance(v, ListV):
        seen[id(v)] = v
        return Snap("list", [snap(x, seen, depth + 1) for x in v.items], id(v))
    if isinstance(v, ObjV):
        seen[id(v)] = v
        return Snap("obj", {k: snap(x, seen, depth + 1) for k, x in v.attrs.items()}, id(v))
    if isinstance(v, tuple):
        return Snap("tuple", [snap(x, seen, depth + 1) for x in v])
    if isinstance(v, StrV):
        return Snap("str", v.segs)
    if v is None or isinstance(v, (str, int, float, bool, bytes)):
        return Snap("const", v)
    return Snap("other", v)


def same_data(a, b):
    """True / False(separated) / None"""
    va, vb = a.vis(), b.vis()
    if va is not None and vb is not None:
        if len(va) != len(vb):
            return False
        for x, y in zip(va, vb):
            if not deq(x, y):
                e = T.equal(P(x), P(y))
                if e is not True:
                    if isinstance(x, int) and isinstance(y, int):
                        return False
                    return False if T.definitely_different(P(x), P(y)) and T.definitely_different(P(y), P(x)) else None
    if a.term is None or b.term is None:
        return None
    if a.term is b.term:
        return True
    e = T.equal(a.term, b.term)
    if e is True:
        return True
    if e is False and T.definitely_different(a.term, b.term) and T.definitely_different(b.term, a.term):
        return False
    return None


def same(a, b):
    """structural equality of two snapshots: True / False / None, with a path"""
    r, p = _same(a, b, "")
    return r, p


def num_const(s):
    if s.kind == "const" and isinstance(s.v, (int, float)) and not isinstance(s.v, bool):
        return ops.num(s.v)
    if s.kind == "arr" and s.v.shape == ():
        return s.v
    return None


def _same(a, b, path):
    if a.kind != b.kind:
        na, nb = num_const(a), num_const(b)
        if na is not None and nb is not None:
            return same_data(na, nb), path
        if "other" in (a.kind, b.kind) or "ref" in (a.kind, b.kind):
            if a.kind == "const" and a.v is None or b.kind == "const" and b.v is None:
                return None, path
            return None, path
        if {a.kind, b.kind} == {"list", "tuple"} or {a.kind, b.kind} == {"list", "arr"} or {a.kind, b.kind} == {"str", "const"}:
            return None, path
        return False, path
    k = a.kind
    if k == "const":
        if isinstance(a.v, float) or isinstance(b.v, float):
            return (a.v == b.v), path
        return (a.v == b.v and type(a.v) == type(b.v)), path
    if k == "arr":
        return same_data(a.v, b.v), path
    if k == "ref":
        return True, path
    if k == "str":
        return (True if a.v == b.v else None), path
    if k in ("dict", "obj"):
        res = True
        if k == "dict" and set(a.v) != set(b.v):
            # numeric keys compare by value
            if len(a.v) != len(b.v):
                return False, path + "{keys}"
            return None, path + "{keys}"
        for key in a.v:
            if key not in b.v:
                if k == "dict":
                    return False, path + "[%s]" % (key,)
                continue
            r, p = _same(a.v[key], b.v[key], path + ("[%s]" % (key,) if k == "dict" else "." + key))
            if r is False:
                return r, p
            if r is None:
                res = None
        return res, path
    if k in ("list", "tuple"):
        if len(a.v) != len(b.v):
            return False, path + "(length)"
        res = True
        for i, (x, y) in enumerate(zip(a.v, b.v)):
            r, p = _same(x, y, path + "[%d]" % i)
            if r is False:
                return r, p
            if r is None:
                res = None
        return res, path
    return (True if a.v is b.v else None), path


# ---------------------------------------------------------------- reachability
def reach(v, skip=()):
    """mutable objects reachable from v: id -> (path, object)"""
    out = {}

    def go(x, path):
        if isinstance(x, Arr):
            r = x.root()
            if id(r) not in out:
                out[id(r)] = (path, r)
            return
        if isinstance(x, tuple):
            for i, y in enumerate(x):
                go(y, "%s[%d]" % (path, i))
            return
        if isinstance(x, (ListV, DictV, ObjV)):
            if id(x) in out or id(x) in skip:
                return
            out[id(x)] = (path, x)
            if isinstance(x, ListV):
                for i, y in enumerate(x.items):
                    go(y, "%s[%d]" % (path, i))
            elif isinstance(x, DictV):
                for k, (kk, y) in x.d.items():
                    go(y, "%s[%r]" % (path, kk if not isinstance(kk, V) else "?"))
            else:
                for n, y in x.attrs.items():
                    go(y, path + "." + n if path else n)
        if isinstance(x, BoundV):
            go(x.obj, path + ".self")
    go(v, "")
    return out


def mutable(x):
    if isinstance(x, Arr):
        return x.data.shape != ()
    return isinstance(x, (ListV, DictV)) or isinstance(x, ObjV)


def is_empty(v):
    """no stored result: None, empty container or zero-size array"""
    if v is None:
        return True
    if isinstance(v, ListV):
        return len(v.items) == 0 and v.exact
    if isinstance(v, DictV):
        return len(v.d) == 0
    if isinstance(v, (tuple, str)):
        return len(v) == 0
    if isinstance(v, Arr):
        vis = v.data.vis()
        return vis is not None and any(isinstance(d, int) and d == 0 for d in vis)
    return False


# ---------------------------------------------------------------- numbers
def D_(v):
    """numeric data of an abstract value or None"""
    if isinstance(v, Arr):
        return v.data
    if isinstance(v, bool):
        return None
    if isinstance(v, (int, float)):
        return ops.num(v)
    return None


def term(v):
    d = D_(v)
    return d.term if d is not None else None


def comp(d, *idx):
    """term of d with leading axes fixed (None = keep)"""
    if d is None or d.term is None or d.shape is None:
        return None
    m = {}
    k = 0
    for i in idx:
        if i is not None:
            m[k] = P(i)
        k += 1
    return map_ix(d.term, m)


def shape_is(d, want):
    """True/False/None"""
    if d is None:
        return None
    v = d.vis()
    if v is None:
        return None
    if len(v) != len(want):
        return False
    for x, y in zip(v, want):
        if y is None:
            continue
        if deq(x, y):
            continue
        e = T.equal(P(x), P(y))
        if e is True:
            continue
        if T.definitely_different(P(x), P(y)):
            return False
        return None
    return True


def shows(v):
    if v is None:
        return "?"
    return "(" + ", ".join(dshow(x) if len(dshow(x)) < 40 else "<%d chars>" % len(dshow(x)) for x in v) + ")"


def writer(o, name, default=None):
    """construct that last stored the attribute"""
    w = (o.wr or {}).get(name) or (o.wr or {}).get("_" + name)
    return w if w is not None else default


def public(o):
    return [n for n in o.attrs if not n.startswith("_")]


def attr(it, o, name):
    """current value of a public attribute or property; None if it does not exist"""
    try:
        return it.getattr(o, name)
    except AbsExc:
        return None
