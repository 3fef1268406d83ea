"""Transfer functions for the Python builtins and the dispatch to library models."""
from fractions import Fraction
import math
import terms as T
from terms import P, Poly, ZERO, ONE, ix, map_ix, app, sym, PI
from values import *
import ops
from ops import num, union

CALLS = {}
ENTER = {}
EXIT = {}
SETATTR = {}
OBJATTR = {}
OBJITEM = {}
OBJBIN = {}


def reg(*paths):
    def deco(f):
        for p in paths:
            CALLS[p] = f
        return f
    return deco


def arg(args, kw, i, name, default=None):
    if name in kw:
        return kw[name]
    if i is not None and i < len(args):
        return args[i]
    return default


EXC = {"Exception", "BaseException", "ValueError", "TypeError", "KeyError", "IndexError", "AttributeError",
       "RuntimeError", "NotImplementedError", "AssertionError", "ZeroDivisionError", "ImportError", "OSError",
       "IOError", "FileNotFoundError", "StopIteration", "KeyboardInterrupt", "SystemExit", "LookupError",
       "ArithmeticError", "FloatingPointError", "Warning", "UserWarning", "DeprecationWarning", "RuntimeWarning",
       "NameError", "OverflowError", "ModuleNotFoundError", "FutureWarning"}
BUILTINS = {"len", "range", "enumerate", "zip", "map", "filter", "sorted", "reversed", "min", "max", "sum", "any",
            "all", "abs", "round", "int", "float", "str", "list", "tuple", "dict", "set", "frozenset", "isinstance",
            "issubclass", "type", "hasattr", "getattr", "setattr", "delattr", "callable", "print", "open", "repr",
            "property", "staticmethod", "classmethod", "exit", "quit", "id", "iter", "next", "bool", "complex",
            "vars", "dir", "divmod", "pow", "format", "hash", "object", "slice", "input", "super", "globals",
            "locals", "chr", "ord", "bytes", "bytearray", "memoryview", "eval", "exec", "compile", "help",
            "NotImplemented", "__import__", "bin", "hex", "oct", "ascii", "breakpoint"}
CONSTB = {"__name__": "m", "__file__": "f", "__doc__": None, "__debug__": True, "__builtins__": None}


def builtin(it, name):
    if name in BUILTINS or name in EXC:
        return ExtV("builtins." + name)
    return None


ALIAS = {"numpy.absolute": "numpy.abs", "numpy.matmul": "numpy.dot", "numpy.amax": "numpy.max",
         "numpy.amin": "numpy.min", "numpy.concat": "numpy.concatenate", "numpy.row_stack": "numpy.vstack",
         "numpy.acos": "numpy.arccos", "numpy.atan2": "numpy.arctan2", "numpy.acosh": "numpy.arccosh",
         "numpy.pow": "numpy.power", "scipy.linalg.inv": "numpy.linalg.inv", "numpy.divide": "numpy.true_divide",
         "builtins.frozenset": "builtins.set", "builtins.quit": "builtins.exit", "sys.exit": "builtins.exit",
         "scipy.integrate.odepack.odeint": "scipy.integrate.odeint"}


def resolve(it, path):
    path = ALIAS.get(path, path)
    import ext_sci
    v = ext_sci.constant(it, path)
    if v is not None:
        return v
    return ExtV(path)


def call(it, path, args, kw):
    path = ALIAS.get(path, path)
    f = CALLS.get(path)
    if f is None and path.startswith("math.") and ("numpy." + path[5:]) in CALLS:
        f = CALLS["numpy." + path[5:]]
    if f is None and path.startswith("builtins.") and path[9:] in EXC:
        o = ObjV("exception")
        o.attrs["args"] = tuple(args)
        return TopV(path + "()", it.deps(tuple(args)))
    if f is not None:
        return f(it, args, kw)
    it.event("extcall", path=path, args=args, kw=kw)
    d = it.deps(tuple(args)) | it.deps(tuple(kw.values()))
    if path.startswith(("time.", "random.", "numpy.random.", "datetime.", "uuid.", "secrets.")):
        d = d | {"nondet:" + path}
    if path.startswith(("os.environ", "os.getenv", "sys.argv")):
        d = d | {"nondet:" + path}
    if path.startswith(("numpy.",)):
        it.unsup("call " + path)
    return TopV(path + "()", d)


# ------------------------------------------------------------------ builtins
@reg("builtins.len")
def b_len(it, a, k):
    v = a[0]
    if isinstance(v, Arr):
        d = v.data
        if d.shape is None:
            return TopV("len", d.deps)
        if d.shape == ():
            it.event("type-error", op="len", a="scalar", b="")
            raise AbsExc("TypeError", "len() of a scalar", it.loc())
        n = dmul(d.shape[0])
        return n if isinstance(n, int) else Arr(ops.scalar(P(n), LIT, dtype="i"))
    if isinstance(v, (str, tuple, list, range)):
        return len(v)
    if isinstance(v, ListV):
        return len(v.items)
    if isinstance(v, DictV):
        return len(v.d)
    if hasattr(v, "d") and hasattr(v, "kind"):
        return len(v.d.d)
    if v is None or isinstance(v, (int, float)):
        it.event("none-deref", what="len")
        raise AbsExc("TypeError", "object has no len()", it.loc())
    if isinstance(v, ObjV) and isinstance(v.cls, ClassV):
        f, c = v.cls.lookup("__len__")
        if f is not None:
            return it.call(BoundV(v, f), [], {})
    return TopV("len", it.deps(v))


def toint(it, v):
    c = it.concrete(v)
    return None if c is None else int(c)


@reg("builtins.range")
def b_range(it, a, k):
    vals = [toint(it, x) for x in a]
    if all(v is not None for v in vals):
        return range(*vals)
    lo = a[0] if len(a) > 1 else 0
    hi = a[1] if len(a) > 1 else a[0]
    st = a[2] if len(a) > 2 else 1
    it.widened += 1
    try:
        d = it.to_data(hi)
    except AbsExc:
        raise
    s = sym(it.fresh("iter"), pos=True)
    c0 = toint(it, lo)
    first = c0 if c0 is not None else lo
    return ListV([first, Arr(ops.scalar(s, LIT, dtype="i"))], exact=False)


@reg("builtins.enumerate")
def b_enum(it, a, k):
    start = toint(it, arg(a, k, 1, "start", 0)) or 0
    return ListV([(i + start, x) for i, x in enumerate(it.iterate(a[0], loop=True))])


@reg("builtins.zip")
def b_zip(it, a, k):
    return ListV([tuple(t) for t in zip(*[it.iterate(x) for x in a])])


@reg("builtins.map")
def b_map(it, a, k):
    return ListV([it.call(a[0], list(t), {}) for t in zip(*[it.iterate(x) for x in a[1:]])])


@reg("builtins.filter")
def b_filter(it, a, k):
    out = []
    for x in it.iterate(a[1]):
        if it.truth(x if a[0] is None else it.call(a[0], [x], {})):
            out.append(x)
    return ListV(out)


@reg("builtins.iter")
def b_iter(it, a, k):
    return ListV(it.iterate(a[0]))


@reg("builtins.next")
def b_next(it, a, k):
    xs = it.iterate(a[0])
    if xs:
        if isinstance(a[0], ListV):
            a[0].items = a[0].items[1:]
        return xs[0]
    if len(a) > 1:
        return a[1]
    raise AbsExc("StopIteration", "empty iterator", it.loc())


@reg("builtins.reversed")
def b_rev(it, a, k):
    return ListV(list(reversed(it.iterate(a[0]))))


def sort_items(it, items, key=None, reverse=False):
    ks = items if key is None else [it.call(key, [x], {}) for x in items]
    if all(isinstance(x, str) for x in ks):
        o = sorted(range(len(items)), key=lambda i: ks[i], reverse=reverse)
        return [items[i] for i in o]
    cs = [it.concrete(x) for x in ks]
    if all(c is not None for c in cs):
        o = sorted(range(len(items)), key=lambda i: cs[i], reverse=reverse)
        return [items[i] for i in o]
    if all(isinstance(x, tuple) for x in ks):
        def cv(x):
            if isinstance(x, str):
                return (1, x)
            c = it.concrete(x)
            return (0, c) if c is not None else None
        rows = [[cv(y) for y in x] for x in ks]
        # leading comparable prefix
        pref = []
        for r in rows:
            p = []
            for y in r:
                if y is None:
                    break
                p.append(y)
            pref.append(p)
        if len({tuple(p) for p in pref}) == len(pref) and all(pref):
            o = sorted(range(len(items)), key=lambda i: pref[i], reverse=reverse)
            return [items[i] for i in o]
    if any(x is None for x in ks) or (any(isinstance(x, str) for x in ks) and len(ks) > 1):
        if not any(isinstance(x, TopV) for x in ks):
            it.event("type-error", op="sort", a=repr(ks)[:80], b="")
            raise AbsExc("TypeError", "unorderable items", it.loc())
    return list(items)


@reg("builtins.sorted")
def b_sorted(it, a, k):
    items = it.iterate(a[0])
    rev = k.get("reverse", False)
    return ListV(sort_items(it, items, k.get("key"), bool(rev) if isinstance(rev, bool) else False))


def minmax(which):
    def f(it, a, k):
        xs = list(a) if len(a) > 1 else it.iterate(a[0])
        if not xs:
            if "default" in k:
                return k["default"]
            it.event("type-error", op=which + "()", a="empty", b="")
            raise AbsExc("ValueError", which + "() of an empty sequence", it.loc())
        if k.get("key") is not None:
            return xs[0] if len(xs) == 1 else TopV(which, it.deps(tuple(xs)))
        cs = [it.concrete(x) for x in xs]
        if all(c is not None for c in cs):
            best = min(cs) if which == "min" else max(cs)
            return xs[cs.index(best)]
        if any(isinstance(x, TopV) for x in xs):
            return TopV(which, it.deps(tuple(xs)))
        ds = [it.to_data(x) for x in xs]
        if any(d is None or d.shape != () for d in ds):
            return TopV(which, it.deps(tuple(xs)))
        ops.add_units(it, ops.zero_ok([d.unit for d in ds], ds), which)
        return Arr(reduce_scalars(it, which, ds))
    return f


def reduce_scalars(it, which, ds):
    r = ds[0]
    for d in ds[1:]:
        r = ops.ufunc(it, "maximum" if which == "max" else "minimum", r, d)
    return r


CALLS["builtins.min"] = minmax("min")
CALLS["builtins.max"] = minmax("max")


@reg("builtins.sum")
def b_sum(it, a, k):
    r = arg(a, k, 1, "start", 0)
    first = True
    for x in it.iterate(a[0]):
        r = it.binop("+", r, x)
    return r


@reg("builtins.any")
def b_any(it, a, k):
    for x in it.iterate(a[0]):
        if it.truth(x):
            return True
    return False


@reg("builtins.all")
def b_all(it, a, k):
    for x in it.iterate(a[0]):
        if not it.truth(x):
            return False
    return True


@reg("builtins.abs")
def b_abs(it, a, k):
    if isinstance(a[0], int):
        return abs(a[0])
    d = it.to_data(a[0])
    if d is None:
        return TopV("abs", it.deps(a[0]))
    return Arr(ops.ufunc(it, "abs", d))


@reg("builtins.round")
def b_round(it, a, k):
    v = a[0]
    if isinstance(v, int) and not isinstance(v, bool):
        return v
    d = it.to_data(v)
    if d is None:
        return TopV("round", it.deps(v))
    nd = toint(it, arg(a, k, 1, "ndigits", None)) if len(a) > 1 or k else None
    c = d.const()
    if c is not None:
        r = round(c, nd) if nd is not None else round(c)
        return r if isinstance(r, int) else Arr(num(Fraction(r)))
    t = None if d.term is None else app("round", d.term, P(nd or 0))
    return Arr(d.upd(term=t, meta={}))


@reg("builtins.int")
def b_int(it, a, k):
    if not a:
        return 0
    v = a[0]
    c = it.concrete(v)
    if c is not None:
        return math.trunc(c)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise AbsExc("ValueError", "int(%r)" % v, it.loc())
    if isinstance(v, TopV) or isinstance(v, StrV):
        return TopV("int", it.deps(v))
    if v is None:
        it.event("none-deref", what="int()")
        raise AbsExc("TypeError", "int(None)", it.loc())
    d = it.to_data(v)
    if d is None or d.shape != ():
        return TopV("int", it.deps(v))
    t = d.term
    if t is not None and not int_like(t):
        t = app("int", t)
    return Arr(d.upd(term=t, dtype="i", meta={}))


def int_like(t):
    """normal form known to be an integer"""
    for m, c in t.t.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            A = T._ATOM_LIST[a]
            if e.denominator != 1 or e < 0:
                return False
            if A.kind == "sym" and str(A.key[1]).startswith(("N_", "res", "iter", "n_")):
                continue
            if A.kind == "ix":
                continue
            if A.kind == "app" and (A.key[1] in ("int", "floor", "ceil", "round", "count") or
                                    str(A.key[1]).startswith(("dim?", "@n"))):
                continue
            if A.kind == "app" and A.key[1] in ("maximum", "minimum") and all(
                    int_like(q) for q in A.key[2] if isinstance(q, Poly)):
                continue
            return False
    return True


@reg("builtins.float")
def b_float(it, a, k):
    if not a:
        return Arr(num(0.0))
    v = a[0]
    if isinstance(v, str):
        try:
            return Arr(num(float(v)))
        except ValueError:
            raise AbsExc("ValueError", "float(%r)" % v, it.loc())
    if v is None:
        it.event("none-deref", what="float()")
        raise AbsExc("TypeError", "float(None)", it.loc())
    if isinstance(v, (TopV, StrV)):
        return TopV("float", it.deps(v))
    d = it.to_data(v)
    if d is None:
        return TopV("float", it.deps(v))
    return Arr(d.upd(dtype="f"))


@reg("builtins.bool")
def b_bool(it, a, k):
    t = it.truth3(a[0])
    return t if t is not None else TopV("bool", it.deps(a[0]))


@reg("builtins.str", "builtins.repr", "builtins.format")
def b_str(it, a, k):
    if not a:
        return ""
    return it.mkstr(it.format_segs(a[0], ""), it.deps(a[0]))


@reg("builtins.list")
def b_list(it, a, k):
    return ListV(it.iterate(a[0]) if a else [])


@reg("builtins.tuple")
def b_tuple(it, a, k):
    return tuple(it.iterate(a[0])) if a else ()


@reg("builtins.set")
def b_set(it, a, k):
    return it.mkset(it.iterate(a[0]) if a else [])


@reg("builtins.dict")
def b_dict(it, a, k):
    d = DictV()
    if a:
        s = a[0]
        if isinstance(s, DictV):
            d.d.update(s.d)
            d.exact = s.exact
            d.on_miss = s.on_miss
        elif isinstance(s, TopV):
            d.exact = False
        else:
            for kv in it.iterate(s):
                kk, vv = it.iterate(kv)
                d.d[it.keyof(kk)] = (kk, vv)
    for kk, vv in k.items():
        d.d[("s", kk)] = (kk, vv)
    return d


TYPES = {"builtins.dict": (DictV,), "builtins.list": (), "builtins.str": (str, StrV), "builtins.tuple": (tuple,),
         "builtins.int": (), "builtins.float": (), "numpy.ndarray": (), "builtins.bool": (bool,),
         "builtins.set": (SetV,)}


def type_path(it, v):
    if isinstance(v, DictV):
        return "builtins.dict"
    if isinstance(v, SetV):
        return "builtins.set"
    if isinstance(v, ListV):
        return "builtins.list"
    if isinstance(v, (str, StrV)):
        return "builtins.str"
    if isinstance(v, tuple):
        return "builtins.tuple"
    if isinstance(v, bool):
        return "builtins.bool"
    if isinstance(v, int):
        return "builtins.int"
    if v is None:
        return "builtins.NoneType"
    if isinstance(v, (float, Fraction)):
        return "builtins.float"
    if isinstance(v, Arr):
        d = v.data
        if d.shape is None:
            return None
        if d.shape == ():
            return {"i": "builtins.int", "b": "builtins.bool"}.get(d.dtype, "builtins.float")
        return "numpy.ndarray"
    if isinstance(v, (FuncV, BoundV, PyV)):
        return "builtins.function"
    return None


NUMT = {"builtins.float", "numpy.float64", "numpy.floating", "numbers.Number", "numbers.Real", "numpy.number"}


@reg("builtins.isinstance")
def b_isinstance(it, a, k):
    v, cs = a[0], a[1]
    cl = cs if isinstance(cs, tuple) else (cs,)
    tp = type_path(it, v)
    und = False
    for c in cl:
        if isinstance(c, ClassV):
            if isinstance(v, ObjV) and isinstance(v.cls, ClassV):
                if c in v.cls.mro():
                    return True
            elif isinstance(v, TopV):
                und = True
        elif isinstance(c, ExtV):
            if tp is None:
                if isinstance(v, ObjV):
                    continue
                und = True
            elif tp == c.path:
                return True
            elif tp == "builtins.bool" and c.path == "builtins.int":
                return True
            elif tp in ("builtins.int", "builtins.float") and c.path in NUMT and not (
                    tp == "builtins.int" and c.path in ("builtins.float", "numpy.float64", "numpy.floating")):
                return True
            elif tp == "builtins.int" and c.path in ("numpy.integer", "numbers.Integral", "numpy.int64"):
                return True
            elif tp == "builtins.dict" and c.path.endswith("Mapping"):
                return True
            elif tp in ("builtins.list", "builtins.tuple", "builtins.str") and c.path.endswith(("Sequence", "Iterable")):
                return True
        else:
            und = True
    if und:
        return it.decide(("isinstance", it.loc()), False, False)
    return False


@reg("builtins.issubclass")
def b_issub(it, a, k):
    if isinstance(a[0], ClassV) and isinstance(a[1], ClassV):
        return a[1] in a[0].mro()
    return False


@reg("builtins.type")
def b_type(it, a, k):
    v = a[0]
    if isinstance(v, ObjV) and isinstance(v.cls, ClassV):
        return v.cls
    p = type_path(it, v)
    if p is None:
        return TopV("type")
    return ExtV(p)


@reg("builtins.hasattr")
def b_hasattr(it, a, k):
    import interp
    name = a[1]
    if not isinstance(name, str):
        return TopV("hasattr")
    n = len(it.events)
    try:
        r = it._getattr(a[0], name)
    except AbsExc as e:
        if e.name != "AttributeError":
            raise
        del it.events[n:]
        return False
    if isinstance(r, TopV) and isinstance(a[0], TopV):
        return it.decide(("hasattr", it.loc()), True, False)
    return r is not interp.MISSING


@reg("builtins.getattr")
def b_getattr(it, a, k):
    if not isinstance(a[1], str):
        return TopV("getattr", it.deps(a[1]))
    if len(a) > 2:
        n = len(it.events)
        try:
            return it.getattr(a[0], a[1], a[2], True)
        except AbsExc as e:
            if e.name == "AttributeError":
                del it.events[n:]
                return a[2]
            raise
    return it.getattr(a[0], a[1])


@reg("builtins.setattr")
def b_setattr(it, a, k):
    if isinstance(a[1], str):
        it.setattr(a[0], a[1], a[2])
    else:
        it.unsup("setattr dynamic name")
    return None


@reg("builtins.delattr")
def b_delattr(it, a, k):
    if isinstance(a[0], ObjV):
        a[0].attrs.pop(a[1], None)
    return None


@reg("builtins.vars")
def b_vars(it, a, k):
    import interp
    return interp.ObjDictV(a[0]) if isinstance(a[0], ObjV) else TopV("vars")


@reg("builtins.callable")
def b_callable(it, a, k):
    return isinstance(a[0], (FuncV, BoundV, PyV, ClassV, ExtV))


@reg("builtins.print")
def b_print(it, a, k):
    it.event("print", args=a)
    return None


@reg("builtins.property")
def b_property(it, a, k):
    return PropV(arg(a, k, 0, "fget"), arg(a, k, 1, "fset"))


@reg("builtins.staticmethod")
def b_static(it, a, k):
    return StaticV(a[0], "static")


@reg("builtins.classmethod")
def b_cls(it, a, k):
    return StaticV(a[0], "class")


@reg("builtins.exit")
def b_exit(it, a, k):
    it.event("exit", args=a)
    raise AbsExc("SystemExit", "exit()", it.loc())


@reg("builtins.id", "builtins.hash")
def b_id(it, a, k):
    return TopV("id", frozenset({"nondet:id"}))


@reg("builtins.object")
def b_object(it, a, k):
    return ObjV("object")


@reg("builtins.divmod")
def b_divmod(it, a, k):
    return (it.binop("//", a[0], a[1]), it.binop("%", a[0], a[1]))


@reg("builtins.pow")
def b_pow(it, a, k):
    return it.binop("**", a[0], a[1])


@reg("builtins.slice")
def b_slice(it, a, k):
    if len(a) == 1:
        return SliceV(None, a[0], None)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)


@reg("builtins.open", "io.open")
def b_open(it, a, k):
    mode = arg(a, k, 1, "mode", "r")
    it.event("open", path=a[0], mode=mode)
    o = ObjV("file")
    o.attrs["path"] = a[0]
    o.attrs["mode"] = mode
    return o


ENTER["file"] = lambda it, cm: cm
EXIT["file"] = lambda it, cm: None


# ------------------------------------------------------------------ functools / itertools / copy
def memo_of(f):
    if not isinstance(f, FuncV):
        return f
    g = FuncV(f.node, f.module, f.closure, f.name, f.defaults, f.kwdefaults, f.cls)
    g.attrs = f.attrs
    g.memo = {}
    return g


@reg("functools.lru_cache", "functools.cache")
def f_memo(it, a, k):
    if a and isinstance(a[0], FuncV):
        return memo_of(a[0])
    return PyV(lambda it2, b, kk: memo_of(b[0]), "lru_cache")


@reg("functools.cached_property")
def f_cachedp(it, a, k):
    f = a[0]
    nm = f.name

    def get(it2, b, kk):
        o = b[0]
        if nm not in o.attrs:
            o.attrs[nm] = it2.call(f, [o], {})
        return o.attrs[nm]

    def put(it2, b, kk):
        b[0].attrs[nm] = b[1]

    def rem(it2, b, kk):
        b[0].attrs.pop(nm, None)
    return PropV(PyV(get, nm), PyV(put, nm), PyV(rem, nm))


@reg("functools.wraps")
def f_wraps(it, a, k):
    def deco(it2, b, kk):
        return b[0]
    if a and isinstance(a[0], FuncV) and not k and False:
        return a[0]
    return PyV(deco, "wraps")


@reg("functools.partial")
def f_partial(it, a, k):
    f, pre = a[0], list(a[1:])

    def g(it2, b, kk):
        d = dict(k)
        d.update(kk)
        return it2.call(f, pre + b, d)
    return PyV(g, "partial")


@reg("functools.reduce")
def f_reduce(it, a, k):
    xs = it.iterate(a[1])
    if len(a) > 2:
        xs = [a[2]] + xs
    r = xs[0]
    for x in xs[1:]:
        r = it.call(a[0], [r, x], {})
    return r


@reg("itertools.product")
def it_product(it, a, k):
    import itertools
    return ListV([tuple(t) for t in itertools.product(*[it.iterate(x) for x in a])])


@reg("itertools.chain")
def it_chain(it, a, k):
    return ListV([y for x in a for y in it.iterate(x)])


@reg("itertools.chain.from_iterable")
def it_chainf(it, a, k):
    return ListV([y for x in it.iterate(a[0]) for y in it.iterate(x)])


@reg("itertools.count")
def it_count(it, a, k):
    return ListV(list(range(0, 64)))


@reg("operator.itemgetter")
def op_itemgetter(it, a, k):
    return PyV(lambda it2, b, kk: it2.getitem(b[0], a[0]), "itemgetter")


@reg("collections.OrderedDict", "collections.defaultdict")
def c_od(it, a, k):
    if a and isinstance(a[0], (ExtV, FuncV, PyV)):
        d = DictV()
        fac = a[0]

        def miss(it2, o, kk):
            v = it2.call(fac, [], {})
            o.d[it2.keyof(kk)] = (kk, v)
            return v
        d.on_miss = miss
        return d
    return b_dict(it, a, k)


def deep(it, v, memo):
    if id(v) in memo:
        return memo[id(v)][0]

    def keep(n):
        memo[id(v)] = (n, v)
        return n
    if isinstance(v, Arr):
        return keep(Arr(v.data))
    if isinstance(v, SetV):
        return keep(SetV(v.items))
    if isinstance(v, ListV):
        n = keep(ListV([], v.exact))
        n.items = [deep(it, x, memo) for x in v.items]
        return n
    if isinstance(v, DictV):
        n = keep(DictV(v.exact))
        n.on_miss = v.on_miss
        n.watch = v.watch
        for kk, (ko, x) in v.d.items():
            n.d[kk] = (ko, deep(it, x, memo))
        return n
    if isinstance(v, tuple):
        return tuple(deep(it, x, memo) for x in v)
    if isinstance(v, ObjV):
        if isinstance(v.cls, ClassV):
            f, c = v.cls.lookup("__deepcopy__")
            if f is not None:
                return it.call(BoundV(v, f), [DictV()], {})
        n = keep(ObjV(v.cls, v.name))
        for kk, x in v.attrs.items():
            n.attrs[kk] = deep(it, x, memo)
        return n
    if isinstance(v, BoundV):
        return BoundV(deep(it, v.obj, memo), v.func)
    return v


@reg("copy.deepcopy")
def c_deepcopy(it, a, k):
    return deep(it, a[0], {})


@reg("copy.copy")
def c_copy(it, a, k):
    v = a[0]
    if isinstance(v, Arr):
        return Arr(v.data)
    if isinstance(v, SetV):
        return SetV(v.items)
    if isinstance(v, ListV):
        return ListV(v.items, v.exact)
    if isinstance(v, DictV):
        n = DictV(v.exact)
        n.d.update(v.d)
        n.on_miss = v.on_miss
        return n
    if isinstance(v, ObjV):
        n = ObjV(v.cls, v.name)
        n.attrs.update(v.attrs)
        return n
    return v


# ------------------------------------------------------------------ attributes of plain values
def meth(name):
    def deco(f):
        STRM[name] = f
        return f
    return deco


STRM = {}


def py(f, name):
    return PyV(f, name)


def value_attr(it, o, name):
    import interp
    import ext_np
    if isinstance(o, (bool, int, float, Fraction)) and not isinstance(o, Arr):
        o = Arr(num(o))
    if isinstance(o, Arr):
        return ext_np.arr_attr(it, o, name)
    if isinstance(o, (str, StrV)):
        return str_attr(it, o, name)
    if isinstance(o, ListV):
        return list_attr(it, o, name)
    if isinstance(o, DictV):
        return dict_attr(it, o, name)
    if isinstance(o, tuple):
        if name == "index":
            return py(lambda i2, a, k: tuple_index(i2, o, a[0]), "index")
        if name == "count":
            return py(lambda i2, a, k: sum(1 for x in o if i2.keyof(x) == i2.keyof(a[0])), "count")
        return interp.MISSING
    if isinstance(o, range):
        return interp.MISSING
    if isinstance(o, interp.GlobalsV):
        m = o.module
        if name == "get":
            return py(lambda i2, a, k: m.ns.get(a[0], a[1] if len(a) > 1 else None), "get")
        if name == "update":
            def upd(i2, a, k):
                src = dict(k)
                if a and isinstance(a[0], DictV):
                    for kk, vv in a[0].d.values():
                        src[kk] = vv
                for kk, vv in src.items():
                    i2.setitem(o, kk, vv)
            return py(upd, "update")
        return TopV("globals." + name)
    if isinstance(o, interp.ObjDictV):
        ob = o.obj
        if name == "get":
            return py(lambda i2, a, k: ob.attrs.get(a[0], a[1] if len(a) > 1 else None), "get")
        if name == "update":
            def upd2(i2, a, k):
                src = dict(k)
                if a and isinstance(a[0], DictV):
                    for kk, vv in a[0].d.values():
                        src[kk] = vv
                for kk, vv in src.items():
                    ob.attrs[kk] = vv
            return py(upd2, "update")
        if name in ("keys", "items", "values"):
            d = DictV()
            for kk, vv in ob.attrs.items():
                d.d[("s", kk)] = (kk, vv)
            return dict_attr(it, d, name)
        return TopV("__dict__." + name)
    if isinstance(o, interp.ExtDictKeys):
        return interp.MISSING
    if isinstance(o, StaticV):
        return it._getattr(o.f, name)
    if isinstance(o, SliceV):
        return {"start": o.lo, "stop": o.hi, "step": o.st}.get(name, interp.MISSING)
    return TopV("attr:" + name)


def tuple_index(it, o, x):
    kx = it.keyof(x)
    for i, y in enumerate(it.iterate(o)):
        if it.keyof(y) == kx:
            return i
    if any(isinstance(y, TopV) for y in it.iterate(o)) or isinstance(x, TopV):
        return TopV("index")
    raise AbsExc("ValueError", "not in list", it.loc())


STR_METHODS = {"upper", "lower", "strip", "lstrip", "rstrip", "title", "capitalize", "replace", "zfill", "ljust",
               "rjust", "center"}


def str_attr(it, o, name):
    import interp
    if name == "format":
        def fmt(i2, a, k):
            import re
            if not isinstance(o, str):
                return StrV(o.segs, i2.deps(tuple(a)) | i2.deps(o))
            segs = []
            deps = frozenset()
            auto = 0
            pos = 0
            for m in re.finditer(r"\{([^{}:!]*)(?:![rsa])?(?::([^{}]*))?\}", o):
                segs.append(o[pos:m.start()].replace("{{", "{").replace("}}", "}"))
                pos = m.end()
                fld = m.group(1)
                base = re.split(r"[.\[]", fld)[0]
                if base == "":
                    v = a[auto] if auto < len(a) else MISS
                    auto += 1
                elif base.isdigit():
                    v = a[int(base)] if int(base) < len(a) else MISS
                else:
                    v = k.get(base, MISS)
                if v is MISS:
                    i2.event("key-missing", key="format field " + fld, keys=[])
                    raise AbsExc("IndexError", "format field %s" % fld, i2.loc())
                if v is None and (m.group(2) or ""):
                    i2.event("none-deref", what="format")
                    raise AbsExc("TypeError", "format of None", i2.loc())
                segs += list(i2.format_segs(v, m.group(2) or ""))
                deps = deps | i2.deps(v)
            segs.append(o[pos:].replace("{{", "{").replace("}}", "}"))
            return i2.mkstr(segs, deps)
        return py(fmt, "str.format")
    if name == "join":
        def join(i2, a, k):
            xs = i2.iterate(a[0])
            segs = []
            deps = i2.deps(o)
            for i, x in enumerate(xs):
                if i:
                    segs += list(i2.segs(o))
                if not isinstance(x, (str, StrV, TopV)):
                    i2.event("type-error", op="join", a=repr(x)[:60], b="")
                    raise AbsExc("TypeError", "join of a non-string", i2.loc())
                segs += list(i2.segs(x))
                deps = deps | i2.deps(x)
            return i2.mkstr(segs, deps)
        return py(join, "str.join")
    if name in STR_METHODS:
        def m1(i2, a, k):
            if isinstance(o, str) and all(isinstance(x, (str, int)) for x in a):
                return getattr(o, name)(*a)
            return StrV(o.segs if isinstance(o, StrV) else (o,), i2.deps(o))
        return py(m1, "str." + name)
    if name in ("startswith", "endswith"):
        def m2(i2, a, k):
            if isinstance(o, str) and isinstance(a[0], (str, tuple)):
                return getattr(o, name)(a[0])
            if isinstance(o, StrV) and isinstance(a[0], str):
                s = o.segs[0] if name == "startswith" else o.segs[-1]
                if isinstance(s, str) and len(s) >= len(a[0]):
                    return getattr(s, name)(a[0])
            return i2.decide((name, i2.loc()), False, False)
        return py(m2, "str." + name)
    if name in ("split", "rsplit", "splitlines", "partition", "rpartition"):
        def m3(i2, a, k):
            if isinstance(o, str) and all(isinstance(x, (str, int)) for x in a):
                r = getattr(o, name)(*a)
                return ListV(r) if isinstance(r, list) else tuple(r)
            return ListV([TopV("split", i2.deps(o))], exact=False)
        return py(m3, "str." + name)
    if name in ("isdigit", "isalpha", "isnumeric", "find", "index", "count", "isidentifier", "islower", "isupper"):
        def m4(i2, a, k):
            if isinstance(o, str) and all(isinstance(x, (str, int)) for x in a):
                return getattr(o, name)(*a)
            return TopV("str." + name, i2.deps(o))
        return py(m4, "str." + name)
    if hasattr("", name):
        return TopV("str." + name, it.deps(o))
    return interp.MISSING


MISS = object()


def list_attr(it, o, name):
    import interp
    if isinstance(o, SetV) and name == "add":
        def sadd(i2, a, k):
            i2.mutated(o, "add")
            if i2.keyof(a[0]) not in [i2.keyof(x) for x in o.items]:
                o.items.append(a[0])
        return py(sadd, "set.add")
    if isinstance(o, SetV) and name in ("union", "difference", "intersection", "issubset", "issuperset", "update",
                                        "discard", "remove"):
        def sop(i2, a, k):
            other = i2.mkset(i2.iterate(a[0])) if name not in ("discard", "remove") else a[0]
            if name == "union":
                return i2.binop("|", o, other)
            if name == "difference":
                return i2.binop("-", o, other)
            if name == "intersection":
                return i2.binop("&", o, other)
            if name in ("issubset", "issuperset"):
                ka = {i2.keyof(x) for x in o.items}
                kb = {i2.keyof(x) for x in other.items}
                return ka <= kb if name == "issubset" else ka >= kb
            i2.mutated(o, name)
            if name == "update":
                o.items = i2.binop("|", o, other).items
            else:
                kk = i2.keyof(other)
                o.items = [x for x in o.items if i2.keyof(x) != kk]
        return py(sop, "set." + name)
    if name == "append":
        def app_(i2, a, k):
            i2.mutated(o, "append")
            o.items.append(a[0])
        return py(app_, "list.append")
    if name == "extend":
        def ext_(i2, a, k):
            i2.mutated(o, "extend")
            o.items.extend(i2.iterate(a[0]))
        return py(ext_, "list.extend")
    if name == "insert":
        def ins(i2, a, k):
            i2.mutated(o, "insert")
            o.items.insert(toint(i2, a[0]) or 0, a[1])
        return py(ins, "list.insert")
    if name == "pop":
        def pop(i2, a, k):
            i2.mutated(o, "pop")
            if not o.items:
                raise AbsExc("IndexError", "pop from empty list", i2.loc())
            i = toint(i2, a[0]) if a else -1
            return o.items.pop(i if i is not None else -1)
        return py(pop, "list.pop")
    if name == "remove":
        def rem(i2, a, k):
            i2.mutated(o, "remove")
            kk = i2.keyof(a[0])
            for i, x in enumerate(o.items):
                if i2.keyof(x) == kk:
                    del o.items[i]
                    return
            raise AbsExc("ValueError", "list.remove", i2.loc())
        return py(rem, "list.remove")
    if name == "sort":
        def sort(i2, a, k):
            i2.mutated(o, "sort")
            r = k.get("reverse", False)
            o.items = sort_items(i2, o.items, k.get("key"), r if isinstance(r, bool) else False)
        return py(sort, "list.sort")
    if name == "reverse":
        def rev(i2, a, k):
            i2.mutated(o, "reverse")
            o.items.reverse()
        return py(rev, "list.reverse")
    if name == "clear":
        def clr(i2, a, k):
            i2.mutated(o, "clear")
            o.items = []
        return py(clr, "list.clear")
    if name == "copy":
        return py(lambda i2, a, k: (SetV if isinstance(o, SetV) else ListV)(o.items), "list.copy")
    if name == "index":
        return py(lambda i2, a, k: tuple_index(i2, o, a[0]), "list.index")
    if name == "count":
        return py(lambda i2, a, k: sum(1 for x in o.items if i2.keyof(x) == i2.keyof(a[0])), "list.count")
    return interp.MISSING


def dict_attr(it, o, name):
    import interp
    if name == "keys":
        return py(lambda i2, a, k: KeysV(i2, o, "keys"), "dict.keys")
    if name == "values":
        return py(lambda i2, a, k: ListV([v for _, v in o.d.values()]), "dict.values")
    if name == "items":
        return py(lambda i2, a, k: ListV([(kk, v) for kk, v in o.d.values()]), "dict.items")
    if name == "get":
        def get(i2, a, k):
            kk = i2.dkey(o.d, a[0])
            if kk in o.d:
                return o.d[kk][1]
            if not o.exact:
                return TopV("get")
            return arg(a, k, 1, "default", None)
        return py(get, "dict.get")
    if name == "update":
        def upd(i2, a, k):
            if a:
                s = a[0]
                if isinstance(s, DictV):
                    for kk, vv in list(s.d.values()):
                        i2.setitem(o, kk, vv)
                elif isinstance(s, TopV):
                    o.exact = False
                else:
                    for kv in i2.iterate(s):
                        kk, vv = i2.iterate(kv)
                        i2.setitem(o, kk, vv)
            for kk, vv in k.items():
                i2.setitem(o, kk, vv)
        return py(upd, "dict.update")
    if name == "copy":
        def cp(i2, a, k):
            return c_copy(i2, [o], {})
        return py(cp, "dict.copy")
    if name == "pop":
        def pop(i2, a, k):
            i2.mutated(o, "pop")
            kk = i2.dkey(o.d, a[0])
            if kk in o.d:
                return o.d.pop(kk)[1]
            if len(a) > 1:
                return a[1]
            i2.event("key-missing", key=repr(a[0])[:60], keys=[])
            raise AbsExc("KeyError", "pop", i2.loc())
        return py(pop, "dict.pop")
    if name == "setdefault":
        def sd(i2, a, k):
            kk = i2.dkey(o.d, a[0])
            if kk not in o.d:
                i2.setitem(o, a[0], a[1] if len(a) > 1 else None)
            return o.d[kk][1]
        return py(sd, "dict.setdefault")
    if name == "clear":
        def clr(i2, a, k):
            i2.mutated(o, "clear")
            o.d.clear()
        return py(clr, "dict.clear")
    if name == "fromkeys":
        return TopV("dict.fromkeys")
    return interp.MISSING


def KeysV(it, o, kind):
    import interp
    return interp.ExtDictKeys(o, kind)


def obj_attr(it, o, name):
    h = OBJATTR.get(o.cls)
    if h is not None:
        return h(it, o, name)
    return TopV("%s.%s" % (o.cls, name))


def obj_getitem(it, o, k):
    h = OBJITEM.get(o.cls)
    if h is not None:
        return h(it, o, k)
    return TopV("%s[]" % o.cls)


def ext_getitem(it, o, k):
    import ext_sci
    r = ext_sci.ext_item(it, o.path, k)
    if r is not None:
        return r
    d = frozenset({"nondet:" + o.path}) if o.path.startswith(("os.environ", "sys.argv")) else frozenset()
    return TopV(o.path + "[]", d)


def obj_binop(it, op, a, b):
    for x in (a, b):
        if isinstance(x, ObjV) and isinstance(x.cls, str) and x.cls in OBJBIN:
            return OBJBIN[x.cls](it, op, a, b)
    return NotImplemented


def array_data(it, v):
    import ext_np
    return ext_np.array_data(it, v)


import ext_np      # noqa
import ext_sci     # noqa
