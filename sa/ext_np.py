"""Transfer functions for numpy."""
from fractions import Fraction
import terms as T
from terms import P, Poly, ZERO, ONE, ix, map_ix, app, sym, PI, atom, selp, catp, CIX
from values import *
import ops
from ops import num, union
from interp import AbsExc
from ext import reg, arg, CALLS, int_like, toint
import ext as EX


def MISSING():
    import interp
    return interp.MISSING


UNK = lambda *ds: Data(None, None, None, union(*[d.deps for d in ds if d is not None]))


def td(it, v):
    """argument -> Data (unknown data when it is not numeric)"""
    d = it.to_data(v)
    if d is None:
        if isinstance(v, DictV):
            it.event("type-error", op="numpy", a="dict", b="")
        return Data(None, None, None, it.deps(v))
    return d


# ------------------------------------------------------------------ construction
def array_data(it, seq):
    items = it.iterate(seq)
    if not items:
        return Data(((0,),), ZERO, LIT)
    ds = []
    for x in items:
        if isinstance(x, (str, StrV, DictV, ObjV, FuncV, BoundV)):
            return None
        if x is None:
            return Data(None, None, None, it.deps(tuple(i for i in items if i is not None)))
        d = it.to_data(x)
        if d is None:
            return None
        ds.append(d)
    inexact = isinstance(seq, ListV) and not seq.exact
    if inexact:
        sh = ds[0].shape
        u = ops.common_unit([d.unit for d in ds])
        return Data(None if sh is None else ((app("dim?list", P(len(ds))),),) + sh, None, u,
                    union(*[d.deps for d in ds]))
    if all(d.shape == () for d in ds) or len({0 if d.shape is None else len(d.shape) for d in ds}) == 1:
        us = [d.unit for d in ds]
        r = ops.stack(it, ds, 0)
        kn = {u for u in us if u is not None and u[0] == "u"}
        if len(kn) > 1:
            r.unit = None
        r.dtype = "i" if all(d.dtype in "ib" for d in ds) else "f"
        if all(d.dtype == "b" for d in ds):
            r.dtype = "b"
        return r
    return UNK(*ds)


def dtype_of(it, v):
    if v is None:
        return None
    if isinstance(v, ExtV):
        n = v.path.split(".")[-1]
        if n.startswith(("int", "uint")):
            return "i"
        if n.startswith("bool"):
            return "b"
        if n.startswith("float"):
            return "f"
        if n.startswith("complex"):
            return "c"
    if isinstance(v, str):
        return "i" if v[:1] in "iu" else "b" if v[:1] == "b" else "f"
    return "f"


def creation(name):
    def f(it, a, k):
        if name.endswith("_like"):
            src = td(it, a[0])
            shape = src.shape
            dt = dtype_of(it, arg(a, k, 2 if name == "full_like" else 1, "dtype")) or src.dtype
            sdeps = frozenset()
            if shape is not None and any(isinstance(x, Poly) for g in shape for x in g):
                sdeps = frozenset(x for x in src.deps if x != "uninit")
            fill = a[1] if name == "full_like" else None
        else:
            sh = arg(a, k, 0, "shape")
            ds = it.dims(sh)
            shape = None if ds is None else flat(ds)
            dt = dtype_of(it, arg(a, k, 2 if name == "full" else 1, "dtype"))
            sdeps = it.deps(sh)
            fill = arg(a, k, 1, "fill_value") if name == "full" else None
        if name.startswith("zeros"):
            return Arr(Data(shape, ZERO, LIT, sdeps, None, dt or "f"))
        if name.startswith("ones"):
            return Arr(Data(shape, ONE, LIT, sdeps, None, dt or "f"))
        if name.startswith("empty"):
            t = None
            if shape is not None:
                n = sum(len(g) for g in shape)
                t = P(atom("app", "uninit", (it.fresh("u"),) + tuple(ix(q) for q in range(n))))
            return Arr(Data(shape, t, LIT, sdeps | {"uninit"}, None, dt or "f"))
        v = td(it, fill)
        if v.shape is None:
            return Arr(Data(shape, None, v.unit, sdeps | v.deps, None, dt or v.dtype))
        if shape is None:
            return Arr(Data(None, None, v.unit, sdeps | v.deps, None, dt or v.dtype))
        s2, ts = ops.broadcast(it, [Data(shape, ONE), v])
        return Arr(Data(shape, ts[1] if s2 is not None else None, v.unit, sdeps | v.deps, None, dt or v.dtype))
    return f


for _n in ("zeros", "ones", "empty", "full", "zeros_like", "ones_like", "empty_like", "full_like"):
    CALLS["numpy." + _n] = creation(_n)


def cast(d, dt):
    if dt is None or dt == d.dtype:
        return d
    if dt == "i" and d.dtype == "f":
        t = d.term
        if t is not None and not int_like(t):
            c = t.const()
            t = P(int(c)) if c is not None else app("trunc", t)
        return d.upd(term=t, dtype="i", meta={})
    return d.upd(dtype=dt)


@reg("numpy.array", "numpy.copy", "numpy.asfortranarray")
def np_array(it, a, k):
    v = a[0]
    if isinstance(v, DictV) or isinstance(v, (str, StrV)):
        return TopV("numpy.array", it.deps(v))
    if isinstance(v, (ListV, tuple)) and any(isinstance(x, (str, StrV)) for x in it.iterate(v)):
        return TopV("numpy.array", it.deps(v))
    if v is None:
        return TopV("numpy.array(None)")
    d = td(it, v)
    nd = toint(it, k.get("ndmin")) if "ndmin" in k else None
    d = cast(d, dtype_of(it, arg(a, k, 1, "dtype")))
    if nd and d.shape is not None:
        while len(d.shape) < nd:
            d = ops.index(it, d, [None, Ellipsis])
    if isinstance(k.get("copy"), bool) and k["copy"] is False and isinstance(v, Arr):
        return v
    return Arr(d.upd())


@reg("numpy.asarray", "numpy.ascontiguousarray", "numpy.asanyarray", "numpy.atleast_1d", "numpy.require")
def np_asarray(it, a, k):
    v = a[0]
    if isinstance(v, Arr) and v.data.shape not in ((),):
        dt = dtype_of(it, arg(a, k, 1, "dtype"))
        if dt is None or dt == v.data.dtype:
            return v
    r = np_array(it, a, {x: y for x, y in k.items() if x in ("dtype",)})
    return r


@reg("numpy.linspace")
def np_linspace(it, a, k):
    lo, hi = td(it, arg(a, k, 0, "start")), td(it, arg(a, k, 1, "stop"))
    nv = arg(a, k, 2, "num", 50)
    n = it.dimof(nv)
    endpoint = arg(a, k, 3, "endpoint", True)
    retstep = arg(a, k, 4, "retstep", False)
    deps = lo.deps | hi.deps | it.deps(nv)
    u = ops.add_units(it, ops.zero_ok([lo.unit, hi.unit], [lo, hi]), "linspace")
    if n is None or lo.shape != () or hi.shape != () or not isinstance(endpoint, bool):
        return Arr(Data(None if n is None else ((n,),), None, u, deps))
    term = None
    if lo.term is not None and hi.term is not None:
        den = (P(n) - 1) if endpoint else P(n)
        if den is ZERO:
            term = lo.term
            step = ZERO
        else:
            step = (hi.term - lo.term) / den
            term = lo.term + ix(0) * step
    meta = {"grid": (lo.term, hi.term)}
    if term is not None and T.is_nonneg(hi.term - lo.term):
        meta["sorted"] = True
    r = Arr(Data(((n,),), term, u, deps, meta))
    if retstep is True:
        return (r, Arr(Data((), step if term is not None else None, u, deps)))
    return r


@reg("numpy.geomspace", "numpy.logspace")
def np_geom(it, a, k):
    n = it.dimof(arg(a, k, 2, "num", 50))
    return Arr(Data(None if n is None else ((n,),), None, None, it.deps(tuple(a))))


@reg("numpy.arange")
def np_arange(it, a, k):
    a = [x for x in a]
    for nm, pos in (("start", 0), ("stop", 1), ("step", 2)):
        if nm in k:
            while len(a) <= pos:
                a.append(None)
            a[pos] = k[nm]
    lo, hi, st = (num(0), td(it, a[0]), num(1)) if len(a) == 1 else \
        (td(it, a[0]), td(it, a[1]), td(it, a[2]) if len(a) > 2 else num(1))
    deps = lo.deps | hi.deps | st.deps
    u = ops.add_units(it, ops.zero_ok([lo.unit, hi.unit, st.unit], [lo, hi, st]), "arange")
    if any(x.shape != () or x.term is None for x in (lo, hi, st)):
        return Arr(Data(None, None, u, deps))
    q = (hi.term - lo.term) / st.term
    c = q.const()
    if c is not None:
        n = max(0, -((-c) // 1))
        n = int(n)
    elif int_like(q):
        n = dim(q)
    else:
        n = app("dim?arange", lo.term, hi.term, st.term)
    dt = "i" if all(x.dtype in "ib" for x in (lo, hi, st)) else "f"
    meta = {"grid": (lo.term, hi.term)}
    if T.is_nonneg(st.term):
        meta["sorted"] = True
    return Arr(Data(((n,),), lo.term + ix(0) * st.term, u, deps, meta, dt))


@reg("numpy.eye", "numpy.identity")
def np_eye(it, a, k):
    n = it.dimof(a[0])
    if not isinstance(n, int) or n > 12:
        return Arr(Data(((n,), (n,)) if n is not None else None, None, LIT))
    rows = tuple(selp(ix(1), tuple(ONE if i == j else ZERO for j in range(n))) for i in range(n))
    return Arr(Data(((n,), (n,)), selp(ix(0), rows), LIT))


@reg("numpy.diag")
def np_diag(it, a, k):
    d = td(it, a[0])
    if d.shape is not None and len(d.shape) == 1 and isinstance(dmul(d.shape[0]), int) and d.term is not None:
        n = dmul(d.shape[0])
        rows = tuple(selp(ix(1), tuple(map_ix(d.term, {0: P(i)}) if i == j else ZERO for j in range(n)))
                     for i in range(n))
        return Arr(Data(((n,), (n,)), selp(ix(0), rows), d.unit, d.deps))
    return Arr(UNK(d))


@reg("numpy.meshgrid")
def np_meshgrid(it, a, k):
    ds = [td(it, x) for x in a]
    ij = k.get("indexing", "xy") == "ij"
    n = len(ds)
    pos = list(range(n))
    if not ij and n >= 2:
        pos[0], pos[1] = 1, 0
    if any(d.shape is None or len(d.shape) > 1 for d in ds):
        return ListV([Arr(UNK(d)) for d in ds])
    dims_ = [(dmul(d.shape[0]) if d.shape else 1) for d in ds]
    shape = [None] * n
    for i, p in enumerate(pos):
        shape[p] = (dims_[i],)
    out = []
    for i, d in enumerate(ds):
        t = None if d.term is None or d.grouped() else map_ix(d.term, {0: ix(pos[i])})
        out.append(Arr(Data(tuple(shape), t, d.unit, d.deps, {"mesh": (i, n, ij)})))
    return ListV(out)


@reg("numpy.indices")
def np_indices(it, a, k):
    return Arr(Data(None, None, DLESS))


# ------------------------------------------------------------------ joining
def seq_datas(it, v):
    if isinstance(v, Arr):
        d = v.data
        if d.shape is not None and len(d.shape) >= 1 and isinstance(dmul(d.shape[0]), int) and dmul(d.shape[0]) <= 12:
            return [ops.index(it, d, [num(i)]) for i in range(dmul(d.shape[0]))], True
        return None, False
    xs = it.iterate(v)
    exact = not (isinstance(v, ListV) and not v.exact)
    return [td(it, x) for x in xs], exact


def joined(it, ds):
    if ds is not None:
        us = {d.unit for d in ds if d.unit is not None and d.unit[0] == "u"}
        if len(us) > 1:
            it.event("mixed-join", units=[ushow(u) for u in us])


def at_least(it, d, n, col=False):
    if d.shape is None:
        return d
    if n == 1 and d.shape == ():
        return ops.index(it, d, [None])
    if n == 2:
        if d.shape == ():
            return ops.index(it, d, [None, None])
        if len(d.shape) == 1:
            return ops.index(it, d, [Ellipsis, None]) if col else ops.index(it, d, [None, Ellipsis])
    return d


@reg("numpy.vstack")
def np_vstack(it, a, k):
    ds, ex = seq_datas(it, a[0])
    if ds is None or not ex:
        return Arr(UNK(*(ds or [td(it, a[0])])))
    r = ops.concat(it, [at_least(it, d, 2) for d in ds], 0)
    r = rows_as_sel(it, ds, r)
    return Arr(r)


def rows_as_sel(it, ds, r):
    """vstack of 1-d rows == stack along axis 0 (keeps the per-row normal forms)"""
    if all(d.shape is not None and len(d.shape) == 1 for d in ds):
        s = ops.stack(ops.Ctx(), ds, 0)
        if s.shape is not None:
            s.unit = r.unit
            return s
    return r


@reg("numpy.hstack")
def np_hstack(it, a, k):
    ds, ex = seq_datas(it, a[0])
    if ds is None or not ex:
        return Arr(UNK(*(ds or [td(it, a[0])])))
    ds = [at_least(it, d, 1) for d in ds]
    nd = max([0 if d.shape is None else len(d.shape) for d in ds])
    return Arr(ops.concat(it, ds, 0 if nd <= 1 else 1))


@reg("numpy.column_stack")
def np_column_stack(it, a, k):
    ds, ex = seq_datas(it, a[0])
    if ds is None or not ex:
        return Arr(UNK(*(ds or [td(it, a[0])])))
    if all(d.shape is not None and len(d.shape) == 1 for d in ds):
        return Arr(ops.stack(it, ds, 1))
    return Arr(ops.concat(it, [at_least(it, d, 2, col=True) for d in ds], 1))


@reg("numpy.stack")
def np_stack(it, a, k):
    ds, ex = seq_datas(it, a[0])
    ax = toint(it, arg(a, k, 1, "axis", 0))
    if ds is None or not ex or ax is None:
        return Arr(UNK(*(ds or [td(it, a[0])])))
    return Arr(ops.stack(it, ds, ax))


@reg("numpy.concatenate")
def np_concat(it, a, k):
    ds, ex = seq_datas(it, a[0])
    axv = arg(a, k, 1, "axis", 0)
    if axv is None and ds is not None:
        ds = [ravel(it, d) for d in ds]
        axv = 0
    ax = toint(it, axv)
    if ds is None or not ex or ax is None:
        return Arr(UNK(*(ds or [td(it, a[0])])))
    return Arr(ops.concat(it, ds, ax))


@reg("numpy.append")
def np_append(it, a, k):
    x, y = td(it, a[0]), td(it, a[1])
    axv = arg(a, k, 2, "axis", None)
    if axv is None:
        if x.shape is None or y.shape is None:
            return Arr(UNK(x, y))
        return Arr(ops.concat(it, [ravel(it, x), ravel(it, y)], 0))
    return Arr(ops.concat(it, [x, y], toint(it, axv) or 0))


def ravel(it, d):
    if d.shape is None:
        return d
    if len(d.shape) == 1:
        return d
    if d.shape == ():
        return ops.index(it, d, [None])
    return ops.reshape(it, d, [-1])


@reg("numpy.ravel")
def np_ravel(it, a, k):
    return Arr(ravel(it, td(it, a[0])))


@reg("numpy.reshape")
def np_reshape(it, a, k):
    ds = it.dims(arg(a, k, 1, "newshape", k.get("shape")))
    d = td(it, a[0])
    if ds is None:
        return Arr(UNK(d))
    if isinstance(a[0], Arr):
        return view_reshape(it, a[0], ds)
    return Arr(ops.reshape(it, d, ds))


def view_reshape(it, A, ds):
    ctx = it
    old = A.data
    if old.shape is None:
        return Arr(ops.reshape(it, old, ds))
    first = ops.reshape(it, old, ds)
    vis = old.vis()

    def get(b):
        return ops.reshape(ops.Ctx(), b, ds)

    def put(b, v):
        r = ops.reshape(ops.Ctx(), v, list(vis))
        return r.upd(deps=r.deps | b.deps) if r.shape is not None else None
    v = Arr(None, A, get, put)
    return v


@reg("numpy.transpose")
def np_transpose(it, a, k):
    ax = arg(a, k, 1, "axes")
    return transpose(it, a[0] if isinstance(a[0], Arr) else Arr(td(it, a[0])), ax)


def transpose(it, A, axes=None):
    d = A.data
    if d.shape is None:
        return Arr(d.upd(term=None))
    n = len(d.shape)
    if axes is None:
        perm = list(range(n))[::-1]
    else:
        perm = [toint(it, x) for x in (it.iterate(axes) if isinstance(axes, (tuple, ListV, list)) else [axes])]
        if any(p is None for p in perm) or sorted(p % n for p in perm) != list(range(n)):
            return Arr(UNK(d))
        perm = [p % n for p in perm]
    inv = [perm.index(i) for i in range(n)]
    return Arr(None, A, lambda b: ops.permute(b, perm) if b.shape is not None and len(b.shape) == n else b.upd(
        shape=None, term=None), lambda b, v: ops.permute(v, inv))


@reg("numpy.swapaxes")
def np_swap(it, a, k):
    d = td(it, a[0])
    if d.shape is None:
        return Arr(UNK(d))
    p = list(range(len(d.shape)))
    i, j = toint(it, a[1]), toint(it, a[2])
    p[i], p[j] = p[j], p[i]
    return Arr(ops.permute(d, p))


@reg("numpy.moveaxis")
def np_moveaxis(it, a, k):
    d = td(it, a[0])
    i, j = toint(it, a[1]), toint(it, a[2])
    if d.shape is None or i is None or j is None:
        return Arr(UNK(d))
    n = len(d.shape)
    p = [x for x in range(n) if x != i % n]
    p.insert(j % n, i % n)
    return Arr(ops.permute(d, p))


@reg("numpy.expand_dims")
def np_expand(it, a, k):
    d = td(it, a[0])
    ax = toint(it, arg(a, k, 1, "axis"))
    if d.shape is None or ax is None:
        return Arr(UNK(d))
    n = len(d.shape) + 1
    ax %= n
    return Arr(ops.index(it, d, [("full",)] * ax + [None] + [("full",)] * (n - 1 - ax)))


@reg("numpy.squeeze")
def np_squeeze(it, a, k):
    return Arr(ops.squeeze(td(it, a[0])))


@reg("numpy.broadcast_to")
def np_bto(it, a, k):
    d = td(it, a[0])
    ds = it.dims(a[1])
    if ds is None:
        return Arr(UNK(d))
    s, ts = ops.broadcast(it, [Data(flat(ds), ONE), d])
    return Arr(Data(flat(ds), ts[1], d.unit, d.deps))


@reg("numpy.flip", "numpy.flipud", "numpy.roll", "numpy.rot90")
def np_flip(it, a, k):
    d = td(it, a[0])
    return Arr(d.upd(term=None, meta={}))


# ------------------------------------------------------------------ elementwise
UF = ["cos", "sin", "tan", "exp", "cosh", "sinh", "tanh", "arccosh", "log", "log10", "log2", "log1p", "expm1",
      "arcsin", "arccos", "arctan", "arcsinh",
      "sqrt", "abs", "fabs", "negative", "positive", "around", "round", "rint", "nan_to_num", "remainder", "mod",
      "fmod", "hypot", "maximum", "minimum", "fmax", "fmin", "arctan2", "square", "reciprocal", "deg2rad", "radians",
      "rad2deg", "degrees", "sign", "isnan", "isfinite", "isinf", "logical_not", "floor", "ceil", "trunc", "float64",
      "cbrt", "conj", "real", "imag", "sinc", "angle", "unwrap"]
NARG = {"remainder": 2, "mod": 2, "fmod": 2, "hypot": 2, "maximum": 2, "minimum": 2, "fmax": 2, "fmin": 2,
        "arctan2": 2}


def ufun(name):
    def f(it, a, k):
        n = NARG.get(name, 1)
        ds = [td(it, x) for x in a[:n]]
        d = ops.ufunc(it, name, *ds)
        if name in ("round", "around"):
            dec = toint(it, arg(a, k, 1, "decimals", 0))
            if ds[0].dtype == "i":
                d = ds[0].upd()
            elif ds[0].term is not None:
                d.term = app("round", ds[0].term, P(dec or 0))
        if name == "negative" or name == "positive":
            d.dtype = ds[0].dtype
        if name in ("isnan", "isfinite", "isinf", "logical_not"):
            d.dtype = "b"
            if name != "logical_not" and ds[0].term is not None:
                d.term = app(name, ds[0].term)
        if d.shape == () and ds[0].meta:
            pass
        if "where" in k or "out" in k:
            it.unsup("ufunc out/where")
            if isinstance(k.get("out"), Arr):
                it.mutated(k["out"], "out=")
                k["out"].set_data(d.upd(term=None) if "where" in k else d)
                return k["out"]
            d = d.upd(term=None)
        return Arr(d)
    return f


for _n in UF:
    CALLS["numpy." + _n] = ufun(_n)
BF = {"add": "+", "subtract": "-", "multiply": "*", "true_divide": "/", "power": "**", "floor_divide": "//",
      "float_power": "**"}
CF = {"greater": ">", "greater_equal": ">=", "less": "<", "less_equal": "<=", "equal": "==", "not_equal": "!="}


def bfun(op):
    def f(it, a, k):
        r = ops.binop(it, op, td(it, a[0]), td(it, a[1]))
        if isinstance(k.get("out"), Arr):
            it.mutated(k["out"], "out=")
            k["out"].set_data(r)
            return k["out"]
        return Arr(r)
    return f


def cfun(op):
    return lambda it, a, k: Arr(ops.compare(it, op, td(it, a[0]), td(it, a[1])))


for _n, _o in BF.items():
    CALLS["numpy." + _n] = bfun(_o)
for _n, _o in CF.items():
    CALLS["numpy." + _n] = cfun(_o)
for _n, _o in (("logical_and", "&"), ("logical_or", "|"), ("bitwise_and", "&"), ("bitwise_or", "|"),
               ("logical_xor", "^")):
    CALLS["numpy." + _n] = bfun(_o)


@reg("numpy.clip")
def np_clip(it, a, k):
    d = td(it, a[0])
    lo, hi = arg(a, k, 1, "a_min"), arg(a, k, 2, "a_max")
    if lo is not None:
        d = ops.ufunc(it, "maximum", d, td(it, lo))
    if hi is not None:
        d = ops.ufunc(it, "minimum", d, td(it, hi))
    return Arr(d)


@reg("numpy.where")
def np_where(it, a, k):
    c = td(it, a[0])
    if len(a) == 1:
        ls = [ops.apply_opaque("nonzero", [c], ((app("dim?nz", *( [P(0)])),),), unit_=DLESS, dtype="i", extra=(str(i),))
              for i in range(len(c.shape) if c.shape is not None else 1)]
        return tuple(Arr(x) for x in ls)
    x, y = td(it, a[1]), td(it, a[2])
    shape, ts = ops.broadcast(it, [c, x, y])
    u = ops.add_units(it, ops.zero_ok([x.unit, y.unit], [x, y]), "where")
    t = None
    if all(q is not None for q in ts):
        if ts[0] is ONE:
            t = ts[1]
        elif ts[0] is ZERO:
            t = ts[2]
        elif ts[1] is ts[2]:
            t = ts[1]
        else:
            t = ts[0] * ts[1] + (ONE - ts[0]) * ts[2]
    return Arr(Data(shape, t, u, c.deps | x.deps | y.deps))


@reg("numpy.nonzero", "numpy.argwhere", "numpy.flatnonzero")
def np_nonzero(it, a, k):
    d = td(it, a[0])
    r = Arr(Data(((app("dim?nz", ONE),),), None, DLESS, d.deps, None, "i"))
    return (r,)


# ------------------------------------------------------------------ reductions
def axes_of(it, v, d):
    if v is None:
        return None
    if isinstance(v, (tuple, ListV)):
        return tuple(toint(it, x) for x in it.iterate(v))
    i = toint(it, v)
    return None if i is None else (i,)


def red(name):
    def f(it, a, k):
        d = td(it, a[0])
        av = arg(a, k, 1, "axis")
        axes = axes_of(it, av, d)
        kd = k.get("keepdims") is True
        return Arr(reduce(it, name, d, axes, kd))
    return f


def reduce(it, name, d, axes, kd=False):
    if d.shape is not None and axes is not None:
        n = len(d.shape)
        if any(x is None for x in axes):
            return Data(None, None, d.unit, d.deps)
        if any(not -n <= x < n for x in axes):
            it.event("index-rank", shape=ops.show_shape([d]), n=max(axes))
            return Data(None, None, d.unit, d.deps)
    if name in ("sum", "nansum"):
        return ops.reduce_sum(it, d, axes, kd)
    if name in ("mean", "average", "nanmean"):
        s = ops.reduce_sum(it, d, axes, kd)
        if d.shape is None:
            return s
        n = ops.extent(d, axes)
        if n == 0:
            return s.upd(term=None)
        return s.upd(term=None if s.term is None else s.term / P(n), dtype="f", unit=d.unit)
    if d.shape is None:
        return Data(() if axes is None else None, None, d.unit, d.deps)
    n = len(d.shape)
    ax = tuple(range(n)) if axes is None else tuple(x % n for x in axes)
    shape = tuple(g if i not in ax else (1,) for i, g in enumerate(d.shape) if kd or i not in ax)
    u = d.unit if name not in ("prod", "std", "var", "any", "all") else (d.unit if name == "std" else
                                                                        upow(d.unit, 2) if name == "var" else None)
    dt = d.dtype
    if name in ("any", "all"):
        u, dt = DLESS, "b"
        if d.term is not None and d.term.const() is not None:
            return Data(shape, P(int(d.term.const() != 0)), u, d.deps, None, dt)
    if name in ("max", "min", "amax", "amin", "nanmax", "nanmin"):
        name = "max" if "max" in name else "min"
        # an array constant along the reduced axes
        off, tot = ops.starts(d.shape)
        if d.term is not None:
            idxs = [off[x] + q for x in ax for q in range(len(d.shape[x]))]
            fr = T.free_ix(d.term)
            if not any(i in fr for i in idxs) and all(dmul(d.shape[x]) != 0 for x in ax):
                return drop_axes(d, ax, shape)
            if len(d.shape) == 1 and d.meta.get("sorted"):
                t = map_ix(d.term, {0: ZERO if name == "min" else P(dmul(d.shape[0])) - 1})
                return Data((), t, d.unit, d.deps)
            if len(d.shape) == 1 and len(d.shape[0]) == 1 and not kd:
                # monotone along the axis
                df = map_ix(d.term, {0: ix(0) + 1}) - d.term
                if 0 not in T.free_ix(df) or isinstance(d.shape[0][0], int):
                    last = P(d.shape[0][0]) - 1
                    if T.is_nonneg(df):
                        return Data((), map_ix(d.term, {0: ZERO if name == "min" else last}), d.unit, d.deps)
                    if T.is_nonneg(-df):
                        return Data((), map_ix(d.term, {0: last if name == "min" else ZERO}), d.unit, d.deps)
            # small explicit reductions
            if len(ax) == 1 and isinstance(dmul(d.shape[ax[0]]), int) and dmul(d.shape[ax[0]]) <= 4 and \
                    len(d.shape[ax[0]]) == 1:
                items = [ops.index(ops.Ctx(), d, [("full",)] * ax[0] + [num(i)]) for i in range(dmul(d.shape[ax[0]]))]
                if not items:
                    raise AbsExc("ValueError", "zero-size array to reduction operation %s" % name, it.loc())
                r = items[0]
                for q in items[1:]:
                    r = ops.ufunc(ops.Ctx(), "maximum" if name == "max" else "minimum", r, q)
                if kd:
                    return Data(shape, None, d.unit, d.deps)
                return r.upd(unit=d.unit, deps=d.deps)
    if axes is None or n == 1:
        # common positive scalar factor is pulled out of max / min
        r = ops.apply_opaque("@" + name, [d], (), unit_=u, dtype=dt)
        if kd:
            return Data(shape, r.term, u, d.deps, None, dt)
        return r
    return ops.apply_opaque("@" + name, [d], shape, unit_=u, dtype=dt, extra=(str(ax),))


def drop_axes(d, ax, shape):
    off, tot = ops.starts(d.shape)
    mp = {}
    e = 0
    for i, g in enumerate(d.shape):
        if i in ax:
            if len(shape) == len(d.shape):
                e += 1
            continue
        for q in range(len(g)):
            mp[off[i] + q] = ix(e)
            e += 1
    return Data(shape, map_ix(d.term, mp), d.unit, d.deps, None, d.dtype)


for _n in ("sum", "nansum", "mean", "average", "nanmean", "max", "min", "nanmax", "nanmin", "prod", "std", "var",
           "any", "all", "median"):
    CALLS["numpy." + _n] = red(_n)


@reg("numpy.ptp")
def np_ptp(it, a, k):
    d = td(it, a[0])
    return Arr(ops.binop(it, "-", reduce(it, "max", d, None), reduce(it, "min", d, None)))


@reg("numpy.count_nonzero")
def np_cnz(it, a, k):
    d = td(it, a[0])
    axes = axes_of(it, arg(a, k, 1, "axis"), d)
    if d.term is not None and d.dtype == "b":
        return Arr(ops.reduce_sum(it, d, axes).upd(unit=DLESS, dtype="i"))
    if axes is None and isinstance(a[0], (ListV, tuple)):
        n = 0
        for x in (a[0].items if isinstance(a[0], ListV) else a[0]):
            if isinstance(x, (ListV, tuple)) or (isinstance(x, Arr) and td(it, x).shape != ()):
                n = None
                break
            n += 1 if it.truth(it.compare("!=", x, 0)) else 0
        if n is not None:
            return n
    return Arr(Data(() if axes is None else None, None, DLESS, d.deps, None, "i"))


@reg("numpy.cumsum")
def np_cumsum(it, a, k):
    return Arr(ops.cumsum(it, td(it, a[0]), toint(it, arg(a, k, 1, "axis")) if arg(a, k, 1, "axis") is not None else None))


@reg("numpy.diff")
def np_diff(it, a, k):
    d = td(it, a[0])
    n = toint(it, arg(a, k, 1, "n", 1))
    ax = toint(it, arg(a, k, 2, "axis", -1))
    if n != 1 or ax is None:
        return Arr(UNK(d))
    for nm, pos in (("prepend", 3), ("append", 4)):
        p = arg(a, k, pos, nm)
        if p is not None:
            q = td(it, p)
            if q.shape is None or d.shape is None:
                return Arr(UNK(d, q))
            if q.shape == () and len(d.shape) == 1:
                q = ops.index(it, q, [None])
            d = ops.concat(it, [q, d] if nm == "prepend" else [d, q], ax)
    return Arr(ops.diff(it, d, ax))


@reg("numpy.gradient")
def np_gradient(it, a, k):
    d = td(it, a[0])
    return Arr(Data(d.shape, None, None, union(*[td(it, x).deps for x in a])))


@reg("numpy.cumprod")
def np_cumprod(it, a, k):
    d = td(it, a[0])
    return Arr(d.upd(term=None, unit=None, meta={}))


@reg("numpy.einsum")
def np_einsum(it, a, k):
    ds = [td(it, x) for x in a[1:]]
    if not isinstance(a[0], str):
        return Arr(UNK(*ds))
    return Arr(ops.einsum(it, a[0], ds))


@reg("numpy.dot", "numpy.vdot", "numpy.inner")
def np_dot(it, a, k):
    return Arr(ops.matmul(it, td(it, a[0]), td(it, a[1])))


@reg("numpy.outer")
def np_outer(it, a, k):
    x, y = ravel(it, td(it, a[0])), ravel(it, td(it, a[1]))
    return Arr(ops.einsum(it, "i,j->ij", [x, y]))


@reg("numpy.tensordot", "numpy.kron")
def np_td(it, a, k):
    return Arr(UNK(td(it, a[0]), td(it, a[1])))


@reg("numpy.cross")
def np_cross(it, a, k):
    return Arr(ops.cross(it, td(it, a[0]), td(it, a[1])))


@reg("numpy.linalg.norm")
def np_norm(it, a, k):
    d = td(it, a[0])
    ax = axes_of(it, arg(a, k, 2, "axis"), d)
    s = ops.reduce_sum(it, ops.ufunc(it, "square", d), ax, k.get("keepdims") is True)
    if arg(a, k, 1, "ord") not in (None, 2):
        return Arr(s.upd(term=None, unit=d.unit))
    return Arr(ops.ufunc(it, "sqrt", s).upd(unit=d.unit))


@reg("numpy.linalg.inv")
def np_inv(it, a, k):
    d = td(it, a[0])
    u = upow(d.unit, -1)
    r = ops.apply_opaque("inv", [d], d.shape, unit_=u)
    r.meta["inverse_of"] = ops.lam(d)
    return Arr(r)


@reg("numpy.linalg.det", "numpy.trace")
def np_det(it, a, k):
    d = td(it, a[0])
    return Arr(ops.apply_opaque("det", [d], (), unit_=None))


@reg("numpy.trapz", "numpy.trapezoid")
def np_trapz(it, a, k):
    y = td(it, a[0])
    x = td(it, arg(a, k, 1, "x")) if arg(a, k, 1, "x") is not None else None
    if y.shape is None or len(y.shape) != 1:
        return Arr(UNK(y) if x is None else UNK(y, x))
    n = dmul(y.shape[0])
    if isinstance(n, int) and n <= 12 and y.term is not None:
        r = ZERO
        ok = True
        for i in range(n - 1):
            dx = ONE if x is None else (map_ix(x.term, {0: P(i + 1)}) - map_ix(x.term, {0: P(i)})) \
                if x.term is not None and x.shape is not None else None
            if dx is None:
                ok = False
                break
            r = r + (map_ix(y.term, {0: P(i)}) + map_ix(y.term, {0: P(i + 1)})) * dx * Fraction(1, 2)
        return Arr(Data((), r if ok else None, umul(y.unit, x.unit) if x is not None else y.unit,
                        y.deps | (x.deps if x is not None else frozenset())))
    return Arr(Data((), None, umul(y.unit, x.unit) if x is not None else y.unit,
                    y.deps | (x.deps if x is not None else frozenset())))


# ------------------------------------------------------------------ interpolation / sorting
def sorted_proof(d):
    """True when the 1-d data is provably nondecreasing"""
    if d.meta.get("sorted"):
        return True
    if d.term is None or d.shape is None or len(d.shape) != 1:
        return None
    t = d.term
    n = dmul(d.shape[0])
    if 0 not in T.free_ix(t):
        return True
    # explicit list
    if isinstance(n, int) and n <= 12:
        ok = True
        for i in range(n - 1):
            dd = map_ix(t, {0: P(i + 1)}) - map_ix(t, {0: P(i)})
            if not T.is_nonneg(dd):
                ok = False
        if ok:
            return True
    step = map_ix(t, {0: ix(0) + 1}) - t
    if 0 not in T.free_ix(step) and T.is_nonneg(step):
        return True
    pcs = ops.pieces_of(t, 0)
    if pcs is not None and len(pcs) == 2 and pcs[0][0] == 1:
        head = map_ix(pcs[0][1], {0: ZERO})
        if nondecr_from(head, pcs[1][1]):
            return True
    if nondecr_from(ZERO, t):
        return True
    return None


def nondecr_from(head, t):
    """t(i) is a sum of cumulative sums of nonnegative bodies, and t >= head"""
    r = t - head
    for m, c in r.t.items():
        hit = 0
        for a, e in m:
            A = T._ATOM_LIST[a]
            if A.kind == "psum" and e == 1 and A.key[1] is ix(0) and T.is_nonneg(A.key[2]):
                hit += 1
            elif not T._fac_nonneg(a, e) or 0 in T.free_ix(P(A)):
                return False
        if c < 0 or hit != 1:
            return False
    return True


def contour_affine(t):
    """linear in contour vertices with axis-0 independent coefficients"""
    hit = False
    for m, c in t.t.items():
        n = 0
        for a, e in m:
            A = T._ATOM_LIST[a]
            if A.kind == "app" and A.key[1] == "@contour" and e == 1:
                n += 1
            elif 0 in T.free_ix(P(A)):
                return False
        if n > 1:
            return False
        hit = hit or n == 1
    return hit


@reg("numpy.interp")
def np_interp(it, a, k):
    x, xp, fp = td(it, arg(a, k, 0, "x")), td(it, arg(a, k, 1, "xp")), td(it, arg(a, k, 2, "fp"))
    period = arg(a, k, 5, "period")
    it.event("interp", x=x, xp=xp, fp=fp, period=period)
    deps = x.deps | xp.deps | fp.deps
    ops.add_units(it, ops.zero_ok([x.unit, xp.unit], [x, xp]), "interp")
    if xp.shape is not None and fp.shape is not None and len(xp.shape) == 1 and len(fp.shape) == 1:
        na, nb = dmul(xp.shape[0]), dmul(fp.shape[0])
        if not deq(na, nb) and ((isinstance(na, int) and isinstance(nb, int)) or ops.known_distinct(na, nb)):
            it.event("shape-mismatch", a="interp " + ops.show_shape([xp, fp]), dims=(str(na), str(nb)))
    t = None
    lx = ops.lam(xp) if xp.shape is not None else None
    if fp.term is not None and x.term is not None and lx is not None and fp.shape is not None and len(fp.shape) == 1:
        fidx = app("@fidx", lx, x.term)
        if contour_affine(fp.term) and x.shape is not None and len(x.shape) == 1:
            t = map_ix(fp.term, {0: fidx})
        elif x.shape is not None:
            lf = ops.lam(fp)
            t = app("@interp", lx, lf, x.term)
    return Arr(Data(x.shape, t, fp.unit, deps))


@reg("scipy.interpolate.interp1d")
def sp_interp1d(it, a, k):
    def g(it2, b, kk):
        return np_interp(it2, [b[0], a[0], a[1]], {})
    return EX.py(g, "interp1d")


def known_order(d):
    """the permutation that sorts d, when its values are known or provably in order"""
    if d.term is None:
        return None
    if sorted_proof(d):
        return ix(0)
    n = dmul(d.shape[0])
    if isinstance(n, int) and 0 < n <= 64:
        cs = [map_ix(d.term, {0: P(i)}).const() for i in range(n)]
        if all(c is not None for c in cs):
            return T.selp(ix(0), tuple(P(i) for i in sorted(range(n), key=lambda i: cs[i])))
    return None


@reg("numpy.argsort")
def np_argsort(it, a, k):
    d = td(it, a[0])
    if d.shape is None or len(d.shape) != 1:
        return Arr(Data(d.shape, None, DLESS, d.deps, None, "i"))
    r = ops.apply_opaque("@argsort", [d], d.shape, unit_=DLESS, dtype="i")
    l = ops.lam(d)
    o = known_order(d)
    if o is not None:
        r.term = o
    if l is not None:
        r.meta["perm"] = l
    return Arr(r)


@reg("numpy.sort")
def np_sort(it, a, k):
    d = td(it, a[0])
    if d.shape is None or len(d.shape) != 1:
        return Arr(d.upd(term=None, meta={}))
    r = ops.apply_opaque("@sort", [d], d.shape, unit_=d.unit, dtype=d.dtype)
    l = ops.lam(d)
    if l is not None:
        o = known_order(d)
        r.term = map_ix(d.term, {0: app("@argsort", l, ix(0)) if o is None else o})
        r.meta["perm"] = l
    r.meta["sorted"] = True
    return Arr(r)


@reg("numpy.argmin", "numpy.argmax", "numpy.searchsorted", "numpy.digitize")
def np_argmin(it, a, k):
    d = td(it, a[0])
    if len(a) > 1 or "axis" in k:
        return Arr(Data(None, None, DLESS, it.deps(tuple(a)), None, "i"))
    return Arr(ops.apply_opaque("@argm", [d], (), unit_=DLESS, dtype="i"))


@reg("numpy.unique")
def np_unique(it, a, k):
    d = td(it, a[0])
    n = app("dim?unique", ONE)
    r = Arr(Data(((n,),), None, d.unit, d.deps, {"sorted": True}, d.dtype))
    extra = [x for x in ("return_index", "return_inverse", "return_counts") if k.get(x) is True]
    if extra:
        return tuple([r] + [Arr(Data(((n,),) if e != "return_inverse" else d.shape, None, DLESS, d.deps, None, "i"))
                            for e in extra])
    return r


@reg("numpy.isin", "numpy.in1d")
def np_isin(it, a, k):
    x, y = td(it, a[0]), td(it, a[1])
    if x.shape is None:
        return Arr(Data(None, None, DLESS, x.deps | y.deps, None, "b"))
    n = ops.extent(y, None) if y.shape is not None else None
    if x.shape == () and x.term is not None and x.term.const() is not None and isinstance(n, int) and n <= 40 and y.term is not None and \
            len(y.shape) == 1 and len(y.shape[0]) == 1 and not k:
        items = [ops.index(ops.Ctx(), y, [num(i)]).term for i in range(n)]
        if all(q is not None and q.const() is not None for q in items):
            return Arr(Data((), P(int(any(q.const() == x.term.const() for q in items))), DLESS, x.deps | y.deps, None, "b"))
    t = None
    if x.term is not None and ops.lam(y) is not None if y.shape is not None else False:
        t = app("@isin", ops.lam(y), x.term)
    inv = k.get("invert") is True
    return Arr(Data(x.shape, (ONE - t) if t is not None and inv else t, DLESS, x.deps | y.deps, None, "b"))


@reg("numpy.setdiff1d", "numpy.intersect1d", "numpy.union1d")
def np_setdiff(it, a, k):
    x, y = td(it, a[0]), td(it, a[1])
    lx = ops.lam(x) if x.shape is not None else None
    ly = ops.lam(y) if y.shape is not None else None
    n = app("dim?set", lx if lx else ONE, ly if ly else ONE)
    return Arr(Data(((n,),), app("@setop", lx, ly, ix(0)) if lx and ly else None, x.unit, x.deps | y.deps, None,
                    x.dtype))


@reg("numpy.bincount")
def np_bincount(it, a, k):
    x = td(it, a[0])
    w = arg(a, k, 1, "weights")
    into = x.meta.get("index_into")
    n = into if into is not None else app("dim?bincount", ONE)
    if w is None:
        return Arr(ops.apply_opaque("@bincount", [x], ((n,),), unit_=DLESS, dtype="i"))
    wd = td(it, w)
    if x.shape is not None and wd.shape is not None:
        ops.broadcast(it, [x, wd])
    deps = x.deps | wd.deps
    t = None
    if x.shape is not None and wd.shape is not None and wd.term is not None and ops.lam(x) is not None:
        t = ZERO
        for m, c in wd.term.t.items():
            out, inn = [], []
            for aa, e in m:
                A = T._ATOM_LIST[aa]
                (inn if T.free_ix(P(A)) else out).append((aa, e))
            body = Data(wd.shape, T.mk({tuple(inn): Fraction(1)}))
            t = t + T.mk({tuple(out): c}) * app("@bincount", ops.lam(x), ops.lam(body), ix(0))
    return Arr(Data(((n,),), t, wd.unit, deps))


@reg("numpy.add.at")
def np_add_at(it, a, k):
    d = td(it, a[0])
    if isinstance(a[0], Arr):
        it.mutated(a[0], "add.at")
        x, w = td(it, a[1]), td(it, a[2])
        if isinstance(a[1], Arr):
            r = np_bincount(it, [a[1], a[2]], {}).data
            if r.term is not None and d.term is not None:
                a[0].set_data(d.upd(term=d.term + r.term, unit=r.unit, deps=d.deps | r.deps))
                return None
        a[0].set_data(d.upd(term=None, deps=d.deps | x.deps | w.deps))
    return None


@reg("numpy.repeat")
def np_repeat(it, a, k):
    d = td(it, a[0])
    n = it.dimof(arg(a, k, 1, "repeats"))
    axv = arg(a, k, 2, "axis")
    if n is None or d.shape is None:
        return Arr(UNK(d))
    if axv is None:
        d = ravel(it, d)
        ax = 0
    else:
        ax = toint(it, axv)
    if d.shape == ():
        d = ops.index(it, d, [None])
    ax %= len(d.shape)
    off, tot = ops.starts(d.shape)
    g = d.shape[ax]
    if g == (1,):
        sh = d.shape[:ax] + ((n,),) + d.shape[ax + 1:]
        t = None if d.term is None else map_ix(d.term, {off[ax]: ZERO})
        return Arr(Data(sh, t, d.unit, d.deps, None, d.dtype))
    ng = g + (n,)
    e = off[ax] + len(g)
    t = None if d.term is None else map_ix(d.term, {q: ix(q + 1) for q in range(e, tot)})
    return Arr(Data(d.shape[:ax] + (ng,) + d.shape[ax + 1:], t, d.unit, d.deps, None, d.dtype))


@reg("numpy.tile")
def np_tile(it, a, k):
    d = td(it, a[0])
    ds = it.dims(arg(a, k, 1, "reps"))
    if ds is None or d.shape is None:
        return Arr(UNK(d))
    if d.shape == ():
        d = ops.index(it, d, [None])
    while len(d.shape) < len(ds):
        d = ops.index(it, d, [None, Ellipsis])
    while len(ds) < len(d.shape):
        ds = [1] + ds
    sh = []
    mp = {}
    e_old = e_new = 0
    for g, n in zip(d.shape, ds):
        if n == 1:
            ng = g
            for q in range(len(g)):
                mp[e_old + q] = ix(e_new + q)
        elif g == (1,):
            ng = (n,)
            mp[e_old] = ZERO
        else:
            ng = (n,) + g
            for q in range(len(g)):
                mp[e_old + q] = ix(e_new + 1 + q)
        e_old += len(g)
        e_new += len(ng)
        sh.append(ng)
    t = None if d.term is None else map_ix(d.term, mp)
    return Arr(Data(tuple(sh), t, d.unit, d.deps, None, d.dtype))


@reg("numpy.size")
def np_size(it, a, k):
    return arr_attr(it, Arr(td(it, a[0])), "size")


@reg("numpy.shape")
def np_shape(it, a, k):
    return arr_attr(it, Arr(td(it, a[0])), "shape")


@reg("numpy.ndim")
def np_ndim(it, a, k):
    return arr_attr(it, Arr(td(it, a[0])), "ndim")


@reg("numpy.isclose")
def np_isclose(it, a, k):
    return Arr(ops.compare(it, "==", td(it, a[0]), td(it, a[1])))


@reg("numpy.allclose", "numpy.array_equal")
def np_allclose(it, a, k):
    d = ops.compare(it, "==", td(it, a[0]), td(it, a[1]))
    return Arr(reduce(it, "all", d, None))


@reg("numpy.isscalar")
def np_isscalar(it, a, k):
    v = a[0]
    if isinstance(v, Arr):
        return v.data.shape == ()
    return isinstance(v, (int, float, str, bool, Fraction))


@reg("numpy.fromiter")
def np_fromiter(it, a, k):
    return np_array(it, a[:1], {})


@reg("numpy.seterr", "numpy.errstate", "numpy.set_printoptions")
def np_noop(it, a, k):
    return TopV("numpy.noop")


# ------------------------------------------------------------------ files
@reg("numpy.loadtxt", "numpy.genfromtxt")
def np_loadtxt(it, a, k):
    fn = a[0]
    it.event("loadtxt", path=fn)
    key = it.path_key(fn) if hasattr(it, "path_key") else repr(fn)
    r = P(atom("app", "@nrow", (key,), pos=True))
    t = P(atom("app", "@file", (key, ix(0), ix(1))))
    return Arr(Data(((r,), (app("dim?ncol", ONE),)), t, None, frozenset({"file:" + key})))


@reg("numpy.savetxt", "numpy.save", "numpy.savez")
def np_savetxt(it, a, k):
    it.event("savetxt", path=a[0], data=td(it, a[1]) if isinstance(a[1], (Arr, ListV, tuple)) else None, kw=k)
    return None


# ------------------------------------------------------------------ methods of arrays
def arr_attr(it, o, name):
    d = o.data
    M = MISSING()
    if name == "shape":
        v = d.vis()
        if v is None:
            return TopV("shape", d.deps)
        return tuple(x if isinstance(x, int) else Arr(ops.scalar(P(x), LIT, dtype="i")) for x in v)
    if name == "T":
        return transpose(it, o)
    if name == "size":
        if d.shape is None:
            return TopV("size", d.deps)
        n = ops.extent(d)
        return n if isinstance(n, int) else Arr(ops.scalar(P(n), LIT, dtype="i"))
    if name == "ndim":
        return len(d.shape) if d.shape is not None else TopV("ndim", d.deps)
    if name == "dtype":
        return TopV("dtype")
    if name in ("real", "flat"):
        return o
    if name == "base":
        return o.base
    py = EX.py

    def m(f):
        return py(lambda i2, a, k: f(i2, a, k), "ndarray." + name)
    if name in ("flatten", "ravel"):
        if name == "ravel" and d.shape is not None and len(d.shape) > 1:
            return m(lambda i2, a, k: view_reshape(i2, o, [-1]))
        if name == "ravel":
            return m(lambda i2, a, k: Arr(None, o, lambda b: ravel(i2, b), lambda b, v: v if b.shape != () else None))
        return m(lambda i2, a, k: Arr(ravel(i2, o.data).upd()))
    if name == "reshape":
        def rs(i2, a, k):
            sh = a[0] if len(a) == 1 else tuple(a)
            ds = i2.dims(sh)
            if ds is None:
                return Arr(UNK(o.data))
            return view_reshape(i2, o, ds)
        return m(rs)
    if name == "transpose":
        return m(lambda i2, a, k: transpose(i2, o, None if not a or a[0] is None else (
            a[0] if len(a) == 1 and isinstance(a[0], (tuple, ListV)) else tuple(a))))
    if name == "copy":
        return m(lambda i2, a, k: Arr(o.data.upd()))
    if name == "astype":
        return m(lambda i2, a, k: Arr(cast(o.data, dtype_of(i2, a[0])).upd()))
    if name in ("sum", "mean", "max", "min", "prod", "std", "var", "any", "all"):
        def rd(i2, a, k):
            dd = o.data
            return Arr(reduce(i2, name, dd, axes_of(i2, arg(a, k, 0, "axis"), dd), k.get("keepdims") is True))
        return m(rd)
    if name in ("cumsum", "argsort", "squeeze", "repeat", "dot", "round", "clip", "swapaxes", "argmax", "argmin",
                "nonzero", "conj"):
        return m(lambda i2, a, k: CALLS["numpy." + name](i2, [o] + list(a), k))
    if name == "tolist":
        def tl(i2, a, k):
            dd = o.data
            if dd.shape == ():
                return Arr(dd)
            return ListV([tl2(i2, x) for x in i2.iterate(o)])

        def tl2(i2, x):
            if isinstance(x, Arr) and x.data.shape:
                return ListV([tl2(i2, y) for y in i2.iterate(x)])
            return x
        return m(tl)
    if name == "item":
        def item(i2, a, k):
            dd = o.data
            if a:
                return i2.getitem(o, a[0] if len(a) == 1 else tuple(a))
            if dd.shape is not None and dd.term is not None:
                n = sum(len(g) for g in dd.shape)
                return Arr(Data((), map_ix(dd.term, {q: ZERO for q in range(n)}), dd.unit, dd.deps, None, dd.dtype))
            return Arr(Data((), None, dd.unit, dd.deps))
        return m(item)
    if name == "fill":
        def fill(i2, a, k):
            i2.mutated(o, "fill")
            v = td(i2, a[0])
            o.set_data(o.data.upd(term=v.term, unit=v.unit, deps=v.deps))
        return m(fill)
    if name == "sort":
        def sort(i2, a, k):
            i2.mutated(o, "sort")
            o.set_data(np_sort(i2, [Arr(o.data)], {}).data)
        return m(sort)
    if name == "view":
        def view(i2, a, k):
            if a or k:
                return Arr(UNK(o.data))
            return Arr(None, o, lambda b: b, lambda b, v: v)
        return m(view)
    if name in ("take", "diagonal", "trace", "ptp") and "numpy." + name in CALLS:
        return m(lambda i2, a, k: CALLS["numpy." + name](i2, [o] + list(a), k))
    if name in ("put", "resize", "partition", "byteswap"):
        def havoc(i2, a, k):
            i2.mutated(o, name)
            dd = o.data
            o.set_data(Data(None if name == "resize" else dd.shape, None, dd.unit, union(dd.deps, i2.deps(tuple(a)))))
        return m(havoc)
    if name in ("is_integer", "as_integer_ratio", "conjugate", "imag", "nbytes", "itemsize", "tobytes",
                "tofile", "dump", "setflags", "flags", "strides", "take", "diagonal", "trace",
                 "searchsorted", "compress", "choose", "numerator", "denominator",
                "bit_length", "hex", "ptp"):
        return TopV("ndarray." + name, d.deps)
    if d.shape is None:
        return M
    return M
