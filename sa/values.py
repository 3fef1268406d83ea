"""Abstract values."""
from fractions import Fraction
import terms as T
from terms import Poly, P, ZERO, ONE, ix, map_ix, free_ix, catp, CIX, subst, sym, app, selp, PI

# ------------------------------------------------------------------ units
BASES = ("m", "kg", "s", "A", "K", "Ang", "ps", "meV", "deg", "eV")
DLESS = ("u", frozenset())
LIT = ("lit", frozenset())


def unit(**kw):
    d = {}
    for k, v in kw.items():
        if k == "J":
            for b, e in (("kg", 1), ("m", 2), ("s", -2)):
                d[b] = d.get(b, 0) + e * v
        elif k == "W":
            for b, e in (("kg", 1), ("m", 2), ("s", -3)):
                d[b] = d.get(b, 0) + e * v
        elif k == "C":
            for b, e in (("A", 1), ("s", 1)):
                d[b] = d.get(b, 0) + e * v
        elif k == "T":
            for b, e in (("kg", 1), ("s", -2), ("A", -1)):
                d[b] = d.get(b, 0) + e * v
        elif k == "Ohm":
            for b, e in (("kg", 1), ("m", 2), ("s", -3), ("A", -2)):
                d[b] = d.get(b, 0) + e * v
        else:
            d[k] = d.get(k, 0) + v
    return ("u", frozenset((k, Fraction(v)) for k, v in d.items() if v))


def lit(u):
    return ("lit", u[1])


def _addx(a, b, s=1):
    d = dict(a)
    for k, v in b:
        n = d.get(k, 0) + s * v
        if n == 0:
            d.pop(k, None)
        else:
            d[k] = n
    return frozenset(d.items())


def umul(a, b, s=1):
    if a is None or b is None:
        return None
    kind = "lit" if a[0] == "lit" and b[0] == "lit" else "u"
    return (kind, _addx(a[1], b[1], s))


def upow(a, n):
    if a is None:
        return None
    return (a[0], frozenset((k, v * n) for k, v in a[1] if v * n))


def ushow(u):
    if u is None:
        return "?"
    if not u[1]:
        return "1"
    return " ".join(k if v == 1 else "%s^%s" % (k, v) for k, v in sorted(u[1]))


_SI = {"Ang": {"m": 1}, "ps": {"s": 1}, "meV": {"kg": 1, "m": 2, "s": -2}, "eV": {"kg": 1, "m": 2, "s": -2}, "deg": {}}


def dimension(u):
    """the physical dimension of a unit, prefixes dropped"""
    d = {}
    for k, v in u[1]:
        for b, e in _SI.get(k, {k: 1}).items():
            d[b] = d.get(b, 0) + e * v
    return frozenset((k, v) for k, v in d.items() if v)


# ------------------------------------------------------------------ dims
def dim(d):
    if isinstance(d, Poly):
        c = d.const()
        if c is not None and c.denominator == 1:
            return int(c)
        return d
    if isinstance(d, Fraction):
        return int(d) if d.denominator == 1 else P(d)
    return d


def dmul(ds):
    r = 1
    for d in ds:
        if isinstance(r, int) and isinstance(d, int):
            r = r * d
        else:
            r = dim(P(r) * P(d))
    return r


def deq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    a, b = P(a), P(b)
    return a is b or bool(T.ASSUMED) and T.red(a) is T.red(b)


def dshow(d):
    return str(d)


class Data:
    """Immutable description of one numeric array/scalar.
    shape: tuple of groups; a group is a tuple of dims (its product is the
    visible extent); the term is a function of the expanded axis indices."""
    __slots__ = ("shape", "term", "unit", "deps", "meta", "dtype")

    def __init__(self, shape, term=None, unit=None, deps=frozenset(), meta=None, dtype="f"):
        self.shape = shape
        self.term = term
        self.unit = unit
        self.deps = deps
        self.meta = meta or {}
        self.dtype = dtype

    def vis(self):
        if self.shape is None:
            return None
        return tuple(dmul(g) for g in self.shape)

    def grouped(self):
        return self.shape is not None and any(len(g) != 1 for g in self.shape)

    def const(self):
        if self.term is not None and self.shape == ():
            return self.term.const()
        return None

    def upd(self, **kw):
        d = Data(self.shape, self.term, self.unit, self.deps, self.meta, self.dtype)
        for k, v in kw.items():
            setattr(d, k, v)
        return d

    def __repr__(self):
        v = self.vis()
        return "Data(%s, %s, %s)" % ("?" if v is None else "(" + ",".join(dshow(x) for x in v) + ")",
                                     self.term, ushow(self.unit))


def flat(dims):
    return tuple((dim(d),) for d in dims)


class V:
    pass


class Arr(V):
    """A numeric object with identity.  Either owns its data or is a view."""
    __slots__ = ("_data", "base", "get", "put", "tags")

    def __init__(self, data, base=None, get=None, put=None):
        self._data = data
        self.base = base
        self.get = get
        self.put = put
        self.tags = None

    @property
    def data(self):
        if self.base is not None:
            return self.get(self.base.data)
        return self._data

    def root(self):
        a = self
        while a.base is not None:
            a = a.base
        return a

    def set_data(self, d):
        if self.base is not None:
            nb = self.put(self.base.data, d) if self.put else None
            if nb is None:
                bd = self.base.data
                nb = bd.upd(term=None, deps=bd.deps | d.deps)
            self.base.set_data(nb)
        else:
            self._data = d

    def __repr__(self):
        return "Arr<%r>" % (self.data,)


class StrV(V):
    """string with symbolic parts"""
    __slots__ = ("segs", "deps")

    def __init__(self, segs, deps=frozenset()):
        out = []
        for s in segs:
            if isinstance(s, str) and out and isinstance(out[-1], str):
                out[-1] += s
            elif s != "":
                out.append(s)
        self.segs = tuple(out)
        self.deps = deps

    def __repr__(self):
        return "Str<%s>" % (self.segs,)


class TopV(V):
    """unknown value"""
    __slots__ = ("path", "deps", "attrs")

    def __init__(self, path="?", deps=frozenset()):
        self.path = path
        self.deps = deps
        self.attrs = {}

    def __repr__(self):
        return "Top<%s>" % self.path


class ListV(V):
    __slots__ = ("items", "tags", "exact")

    def __init__(self, items, exact=True):
        self.items = list(items)
        self.tags = None
        self.exact = exact

    def __repr__(self):
        return "List%r" % (self.items,)


class SetV(ListV):
    pass


class DictV(V):
    """keys: canonical -> (key value, value)"""
    __slots__ = ("d", "tags", "exact", "watch", "on_miss")

    def __init__(self, exact=True):
        self.d = {}
        self.tags = None
        self.exact = exact
        self.watch = None
        self.on_miss = None

    def __repr__(self):
        return "Dict{%s}" % ", ".join("%r: %r" % (k, v[1]) for k, v in self.d.items())


class ObjV(V):
    __slots__ = ("cls", "attrs", "tags", "name", "wr")

    def __init__(self, cls, name=None):
        self.wr = None
        self.cls = cls
        self.attrs = {}
        self.tags = None
        self.name = name

    def __repr__(self):
        return "<%s obj>" % (self.cls.name if hasattr(self.cls, "name") else self.cls)


class ClassV(V):
    def __init__(self, name, bases, ns, module):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def opaque_base(self):
        return any(not isinstance(b, ClassV) and not (isinstance(b, ExtV) and b.path == "object")
                   for c in self.mro() for b in c.bases)

    def __repr__(self):
        return "<class %s>" % self.name


class FuncV(V):
    def __init__(self, node, module, closure, name, defaults, kwdefaults, cls=None):
        self.node = node
        self.module = module
        self.closure = closure
        self.name = name
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.cls = cls
        self.attrs = {}
        self.memo = None

    def __repr__(self):
        return "<func %s>" % self.name


class BoundV(V):
    __slots__ = ("obj", "func")

    def __init__(self, obj, func):
        self.obj = obj
        self.func = func

    def __repr__(self):
        return "<bound %r>" % (self.func,)


class PropV(V):
    def __init__(self, fget, fset=None, fdel=None):
        self.fget = fget
        self.fset = fset


class StaticV(V):
    def __init__(self, f, kind):
        self.f = f
        self.kind = kind


class ExtV(V):
    """external symbol by dotted path"""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "<ext %s>" % self.path


class PyV(V):
    """external callable implemented by the analyser"""
    __slots__ = ("f", "name", "attrs")

    def __init__(self, f, name):
        self.f = f
        self.name = name
        self.attrs = {}

    def __repr__(self):
        return "<py %s>" % self.name


class ModV(V):
    def __init__(self, name, ns, path):
        self.name = name
        self.ns = ns
        self.path = path


class SliceV(V):
    __slots__ = ("lo", "hi", "st")

    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st


class FileV(V):
    def __init__(self, path, mode):
        self.path = path
        self.mode = mode


NONE_DEPS = frozenset()


class AbsExc(Exception):
    """an exception of the analysed program"""

    def __init__(self, name, msg="", loc=None, value=None, definite=True):
        self.name = name
        self.msg = msg
        self.loc = loc
        self.value = value
        self.definite = definite

    def __str__(self):
        return "%s: %s at %s" % (self.name, self.msg, self.loc)


class Unsupported(Exception):
    pass
