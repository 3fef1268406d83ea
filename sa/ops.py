"""Operations on abstract numeric data (shape x unit x normal form x deps)."""
from fractions import Fraction
import terms as T
from terms import P, ZERO, ONE, ix, map_ix, free_ix, catp, CIX, subst, app, selp, atom, Poly
from values import Data, Arr, dim, dmul, deq, flat, DLESS, LIT, umul, upow, unit, lit, ushow, _addx

SMALL = 12


class Ctx:
    """receives diagnostics from operations"""
    def event(self, kind, **info):
        pass


def union(*ds):
    r = frozenset()
    for d in ds:
        if d:
            r = r | d
    return r


def scalar(x, unit_=LIT, deps=frozenset(), dtype=None):
    t = x if isinstance(x, Poly) else P(x)
    if dtype is None:
        dtype = "i" if isinstance(x, int) and not isinstance(x, bool) else "b" if isinstance(x, bool) else "f"
    return Data((), t, unit_, deps, None, dtype)


_CONV = [
    (1e-10, unit(m=1, Ang=-1)), (1e10, unit(m=-1, Ang=1)),
    (1e-12, unit(s=1, ps=-1)), (1e12, unit(s=-1, ps=1)),
    (180, unit(deg=1)), (180.0, unit(deg=1)),
    (1e20, unit(m=-2, Ang=2)), (1e-20, unit(m=2, Ang=-2)),
    (1e30, unit(m=-3, Ang=3)), (1e-30, unit(m=3, Ang=-3)),
]


ODD = set()


def lit_unit(x):
    for v, u in _CONV:
        if x == v and type(x) in (int, float):
            return lit(u)
    if isinstance(x, float) and x != 0:
        if abs(x - 0.017453292519943295) < 1e-6:
            return lit(unit(deg=-1))
        if abs(x - 57.29577951308232) < 1e-3:
            return lit(unit(deg=1))
        if x > 0 and (x >= 1e6 or x <= 1e-6):
            ODD.add(x)      # a literal that may stand for several conversions at once
        for v in (1.054571817e-34, 1.380649e-23, 9.1093837015e-31, 1.602176634e-19, 1.602176634e-22,
                  6.62607015e-34, 8.617333262e-2, 8.617333262e-5):
            if abs(x - v) < 1e-3 * v:
                return None
    return LIT


def num(x):
    """python number -> Data"""
    if isinstance(x, bool):
        return Data((), P(int(x)), DLESS, frozenset(), None, "b")
    if isinstance(x, float):
        try:
            t = P(x)
        except ValueError:
            t = app("inf") if x > 0 else (-app("inf") if x < 0 else app("nan"))
        return Data((), t, lit_unit(x), frozenset(), None, "f")
    if isinstance(x, Fraction):
        return Data((), P(x), LIT, frozenset(), None, "f")
    if isinstance(x, complex):
        return Data((), None, LIT, frozenset(), None, "f")
    return Data((), P(x), lit_unit(x), frozenset(), None, "i")


# ------------------------------------------------------------------ broadcasting
def broadcast(ctx, datas):
    """-> (shape groups or None, list of normal forms aligned to that shape)"""
    if any(d.shape is None for d in datas):
        return None, [None] * len(datas)
    r = max(len(d.shape) for d in datas)
    shape = []
    ok = True
    for k in range(r):
        best = None
        for d in datas:
            j = k - (r - len(d.shape))
            if j < 0:
                continue
            g = d.shape[j]
            n = dmul(g)
            if best is None:
                best = (g, n)
                continue
            bg, bn = best
            if n == 1:
                continue
            if bn == 1:
                best = (g, n)
                continue
            if not deq(n, bn):
                if isinstance(n, int) and isinstance(bn, int) or known_distinct(n, bn):
                    ctx.event("shape-mismatch", a=show_shape(datas), dims=(str(bn), str(n)))
                    return None, [None] * len(datas)
                ok = ok and True
                # undecided equality of extents: keep the first
                continue
            if len(g) > len(bg):
                best = (g, n)
        shape.append(best[0])
    terms = []
    for d in datas:
        if d.term is None:
            terms.append(None)
            continue
        # expanded index mapping
        off = []
        e = 0
        for g in shape:
            off.append(e)
            e += len(g)
        mp = {}
        src = 0
        good = True
        for j, g in enumerate(d.shape):
            k = j + (r - len(d.shape))
            tgt = shape[k]
            if len(g) == len(tgt):
                for q in range(len(g)):
                    if g[q] == 1 and not tgt[q] == 1:
                        mp[src] = ZERO
                    else:
                        mp[src] = ix(off[k] + q)
                    src += 1
            elif dmul(g) == 1:
                for q in range(len(g)):
                    mp[src] = ZERO
                    src += 1
            else:
                good = False
                break
        terms.append(map_ix(d.term, mp) if good else None)
    return tuple(shape), terms


def known_distinct(a, b):
    """two extents that are definitely different for generic inputs"""
    pa, pb = P(a), P(b)
    if fuzzy(pa) or fuzzy(pb):
        return False
    return True


def fuzzy(p):
    for A in T.atoms_of(p):
        if A.kind == "app" and (A.key[1].startswith("dim?") or A.key[1] == "max"):
            return True
        if A.kind == "grp":
            return True
    return any(c.denominator != 1 for c in p.t.values()) or any(
        e < 0 for m in p.t for a, e in m)


def show_shape(datas):
    out = []
    for d in datas:
        v = d.vis()
        out.append("?" if v is None else "(" + ",".join(str(x) for x in v) + ")")
    return " vs ".join(out)


def merge_meta(datas):
    return {}


def add_units(ctx, us, what="+"):
    res = None
    known = None
    allknown = True
    for u in us:
        if u is None:
            allknown = False
            continue
        if u[0] == "lit":
            continue
        if known is None:
            known = u
        elif known != u:
            ctx.event("unit-mismatch", op=what, a=ushow(known), b=ushow(u), ua=known, ub=u)
            return None
    if known is not None:
        return known if allknown else None
    if allknown:
        for u in us:
            if u[1]:
                return u
        return LIT
    return None


def elementwise(ctx, name, datas, fn, ufn, dtype="f"):
    shape, ts = broadcast(ctx, datas)
    deps = union(*[d.deps for d in datas])
    term = None
    if all(t is not None for t in ts):
        try:
            term = fn(*ts)
        except (ZeroDivisionError, ValueError, OverflowError):
            term = None
    u = ufn([d.unit for d in datas])
    r = Data(shape, term, u, deps, None, dtype)
    return r


def binop(ctx, op, a, b):
    dt = "f"
    if a.dtype in "ib" and b.dtype in "ib" and op in "+-*//%**":
        dt = "i"
    if op == "+":
        if a.term is ZERO and a.unit is not None and a.unit[0] == "lit":
            ua = LIT
        r = elementwise(ctx, op, [a, b], lambda x, y: x + y, lambda us: add_units(ctx, zero_ok(us, [a, b]), "+"), dt)
        return keep_meta(r, a, b)
    if op == "-":
        r = elementwise(ctx, op, [a, b], lambda x, y: x - y, lambda us: add_units(ctx, zero_ok(us, [a, b]), "-"), dt)
        return keep_meta(r, a, b)
    if op == "*":
        return elementwise(ctx, op, [a, b], lambda x, y: x * y,
                           lambda us: umul(ev_conv(us[0], b, 1), ev_conv(us[1], a, 1)), dt)
    if op == "/":
        return elementwise(ctx, op, [a, b], lambda x, y: x / y,
                           lambda us: umul(ev_conv(us[0], b, -1), us[1], -1))
    if op == "//":
        def f(x, y):
            cx, cy = x.const(), y.const()
            if cx is not None and cy:
                return P(cx // cy)
            return (x - T.remainderp(x, y)) / y
        return elementwise(ctx, op, [a, b], f, lambda us: umul(us[0], us[1], -1), dt)
    if op == "%":
        def f(x, y):
            cx, cy = x.const(), y.const()
            if cx is not None and cy:
                return P(cx % cy)
            return T.remainderp(x, y)
        return elementwise(ctx, op, [a, b], f, lambda us: add_units(ctx, us, "%"), dt)
    if op == "**":
        def uf(us):
            if us[0] is None:
                return None
            if not us[0][1]:
                return us[0] if us[0][0] == "u" else (us[0] if us[1] is not None and us[1][0] == "lit" else DLESS)
            n = b.const()
            if n is None:
                return None
            return upow(us[0], n)
        return elementwise(ctx, op, [a, b], lambda x, y: T.powp(x, y), uf, dt)
    if op in ("&", "|", "^"):
        return elementwise(ctx, op, [a, b], lambda x, y: bool_op(op, x, y), lambda us: DLESS, "b")
    return elementwise(ctx, op, [a, b], lambda x, y: app("op" + op, x, y), lambda us: None)


_THOU = Fraction(1000)


def ev_conv(u, other, s):
    """eV <-> meV: a quantity per eV times 1e-3 is a quantity per meV, one in eV
    times 1e3 is one in meV (only when the other factor is that bare literal)"""
    if u is None or not u[1] or other.unit is None or other.unit != LIT or other.deps:
        return u
    d = dict(u[1])
    n = d.get("eV")
    if not n:
        return u
    c = other.const()
    if c is None or c <= 0:
        return u
    c = c ** s
    if abs(c - _THOU ** int(n)) < Fraction(1, 10 ** 9) * _THOU ** int(n):
        d.pop("eV")
        d["meV"] = d.get("meV", 0) + n
        return (u[0], frozenset((k, v) for k, v in d.items() if v))
    return u


def zero_ok(us, ds):
    return [LIT if d.term is ZERO else u for u, d in zip(us, ds)]


def keep_meta(r, a, b):
    return r


def bool_op(op, x, y):
    if op == "&":
        if x is ZERO or y is ZERO:
            return ZERO
        if x is ONE:
            return y
        if y is ONE:
            return x
        return x * y if x is not y else x
    if op == "|":
        if x is ONE or y is ONE:
            return ONE
        if x is ZERO:
            return y
        if y is ZERO:
            return x
        return app("or", *sorted((x, y), key=T._order_key))
    return app("xor", x, y)


def compare(ctx, op, a, b):
    def f(x, y):
        d = x - y
        c = d.const()
        if op in ("==", "!="):
            if c is not None:
                r = (c == 0) if op == "==" else (c != 0)
                return ONE if r else ZERO
            if T.is_pos(d) or T.is_pos(-d):
                return ZERO if op == "==" else ONE
            s, q = T._posnorm(d)
            e = app("eq0", q)
            return e if op == "==" else ONE - e
        if c is not None:
            r = {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[op]
            return ONE if r else ZERO
        if op in (">", ">="):
            if T.is_pos(d) or (op == ">=" and T.is_nonneg(d)):
                return ONE
            if T.is_pos(-d) or (op == ">" and T.is_nonneg(-d)):
                return ZERO
            return app("gt0" if op == ">" else "ge0", d)
        if T.is_pos(-d) or (op == "<=" and T.is_nonneg(-d)):
            return ONE
        if T.is_pos(d) or (op == "<" and T.is_nonneg(d)):
            return ZERO
        return app("gt0" if op == "<" else "ge0", -d)

    def uf(us):
        add_units(ctx, zero_ok(us, [a, b]), op)
        return DLESS
    return elementwise(ctx, op, [a, b], f, uf, "b")


DL_FUNCS = {"cos", "sin", "tan", "exp", "cosh", "sinh", "tanh", "arccosh", "log", "arcsin", "arccos", "arctan"}


def ufunc(ctx, name, *ds):
    def uf(us):
        u = us[0]
        if name in DL_FUNCS:
            if u is not None and u[0] == "u" and u[1] and ds[0].term is not ZERO:
                ctx.event("unit-arg", func=name, a=ushow(u), ua=u)
            return DLESS
        if name == "sqrt":
            return upow(u, Fraction(1, 2))
        if name in ("abs", "absolute", "fabs", "negative", "asarray", "float64", "float", "positive",
                    "around", "round", "rint", "nan_to_num"):
            return u
        if name in ("remainder", "mod", "hypot", "maximum", "minimum", "fmod"):
            return add_units(ctx, us, name)
        if name == "arctan2":
            add_units(ctx, us, name)
            return DLESS
        if name == "square":
            return upow(u, 2)
        if name == "reciprocal":
            return upow(u, -1)
        if name in ("deg2rad", "radians"):
            if u is not None and u[0] == "u" and u != unit(deg=1):
                ctx.event("unit-arg", func=name, a=ushow(u), ua=u)
            return DLESS
        if name in ("rad2deg", "degrees"):
            if u is not None and u[0] == "u" and u[1]:
                ctx.event("unit-arg", func=name, a=ushow(u), ua=u)
            return unit(deg=1)
        if name in ("sign", "isnan", "isfinite", "logical_not"):
            return DLESS
        if name in ("floor", "ceil"):
            return u
        return None

    def fn(*ts):
        if name in ("around", "round", "rint"):
            return app("round", *ts)
        if name in ("floor", "ceil"):
            c = ts[0].const()
            if c is not None:
                import math
                return P(math.floor(c) if name == "floor" else math.ceil(c))
            return app(name, *ts)
        if name == "negative":
            return -ts[0]
        if name == "logical_not":
            return ONE - ts[0]
        if name in ("maximum", "minimum"):
            a, b = ts
            d = a - b
            if T.is_nonneg(d):
                return a if name == "maximum" else b
            if T.is_nonneg(-d):
                return b if name == "maximum" else a
            return app(name, *sorted(ts, key=T._order_key))
        if name in ("tanh",):
            return T.fun("sinh", ts[0]) / T.fun("cosh", ts[0])
        if name == "log":
            if ts[0] is ONE:
                return ZERO
            return app("log", ts[0])
        if name == "nan_to_num":
            return ts[0]
        return T.fun(name, *ts)
    r = elementwise(ctx, name, list(ds), fn, uf)
    if name in ("floor", "ceil", "rint"):
        r.dtype = "f"
    return r


# ------------------------------------------------------------------ lambda lifting
def lam(d):
    """closed representation of an array's contents (axis indices bound)"""
    if d.term is None:
        return None
    n = sum(len(g) for g in d.shape)
    t = subst(d.term, lambda A: P(atom("lv", A.key[1])) if A.kind == "ix" else None)
    return ("lam", n, t, tuple(x for g in d.shape for x in g))


def apply_opaque(name, datas, shape, idx=None, unit_=None, dtype="f", extra=(), pos=False):
    """uninterpreted array function"""
    deps = union(*[d.deps for d in datas])
    ls = [lam(d) for d in datas]
    term = None
    if shape is not None and all(l is not None for l in ls):
        n = sum(len(g) for g in shape)
        term = P(atom("app", name, tuple(ls) + tuple(extra) + tuple(ix(k) for k in range(n)), pos=pos))
    return Data(shape, term, unit_, deps, None, dtype)


# ------------------------------------------------------------------ indexing
def starts(shape):
    off, e = [], 0
    for g in shape:
        off.append(e)
        e += len(g)
    return off, e


class Key:
    """normalised index: list of ('int',Poly,deps) ('slice',lo,n) ('full',) ('new',) ('arr',Data) ('mask',Data) ('rev',)"""


def norm_key(d, key):
    """key: list of raw items: Data / ('slice',lo,hi,st) with Poly|None / None / Ellipsis"""
    n_axes = len(d.shape)
    used = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, Data) and k.dtype == "b" and k.shape is not None and len(k.shape) > 1:
            used += len(k.shape)
        else:
            used += 1
    out = []
    for k in key:
        if k is Ellipsis:
            out += [("full",)] * (n_axes - used)
        else:
            out.append(k)
    if Ellipsis not in [k for k in key if not isinstance(k, Data)]:
        out += [("full",)] * (n_axes - used)
    if used > n_axes:
        return None
    return out


def clip_slice(n, lo, hi, st):
    """-> (lo Poly, extent dim, step int) or None"""
    step = 1 if st is None else st.const()
    if step is None:
        return None
    step = int(step)
    nP = P(n)
    if step == 1:
        lo = ZERO if lo is None else lo
        hi = nP if hi is None else hi
        for nm in ("lo", "hi"):
            v = lo if nm == "lo" else hi
            c = v.const()
            if c is not None and c < 0:
                v = nP + v
            if isinstance(n, int) and v.const() is not None:
                v = P(min(max(v.const(), 0), n))
            if nm == "lo":
                lo = v
            else:
                hi = v
        ext = hi - lo
        if ext.const() is not None and ext.const() < 0:
            ext = ZERO
        return lo, dim(ext), 1
    if step == -1 and lo is None and hi is None:
        return nP - 1, n, -1
    if step > 1:
        lo = ZERO if lo is None else lo
        hi = nP if hi is None else hi
        for nm in ("lo", "hi"):
            v = lo if nm == "lo" else hi
            c = v.const()
            if c is not None and c < 0:
                v = nP + v
            if nm == "lo":
                lo = v
            else:
                hi = v
        ext = hi - lo
        c = ext.const()
        if c is not None:
            return lo, int(-((-c) // step)), step
        return lo, app("dim?ceil", ext / step), step
    return None


def index(ctx, d, key):
    """d[key] -> Data (or None when not representable)"""
    if d.shape is None:
        return Data(None, None, d.unit, union(d.deps, *[k.deps for k in key if isinstance(k, Data)]), None, d.dtype)
    nk = norm_key(d, key)
    deps = d.deps
    for k in key:
        if isinstance(k, Data):
            deps = deps | k.deps
    if nk is None:
        ctx.event("index-rank", shape=show_shape([d]), n=len(key))
        return Data(None, None, d.unit, deps, None, d.dtype)
    off, tot = starts(d.shape)
    new_shape = []
    mp = {}
    src = 0
    tgt = 0
    known = d.term is not None
    meta = {}
    for k in nk:
        if k is None:
            new_shape.append((1,))
            tgt += 1
            continue
        g = d.shape[src]
        n = dmul(g)
        e0 = off[src]
        if k == ("full",) or (isinstance(k, tuple) and k[0] == "slice" and k[1] is None and k[2] is None and k[3] is None):
            for q in range(len(g)):
                mp[e0 + q] = ix(tgt + q)
            new_shape.append(g)
            tgt += len(g)
            src += 1
            continue
        if len(g) != 1:
            known = False
        if isinstance(k, tuple) and k[0] == "slice":
            cs = clip_slice(n, k[1], k[2], k[3])
            if cs is None:
                known = False
                new_shape.append((app("dim?slice", P(n), ONE),))
            else:
                lo, ext, step = cs
                mp[e0] = lo + ix(tgt) * step
                new_shape.append((ext,))
            tgt += 1
            src += 1
            continue
        if isinstance(k, Data):
            if k.dtype == "b" and k.shape != ():
                nm = len(k.shape) if k.shape is not None else 1
                lk = lam(k) if k.shape is not None else None
                cm = const_mask(k)
                if cm is not None and len(cm) == k.shape[0][0]:
                    mp[e0] = ix(tgt)
                    new_shape.append((n,))
                elif cm is not None and len(cm) > 0:
                    if cm == list(range(cm[0], cm[0] + len(cm))):
                        mp[e0] = ix(tgt) + cm[0]
                    else:
                        mp[e0] = selp(ix(tgt), tuple(P(q) for q in cm))
                    new_shape.append((len(cm),))
                    meta = {kk: v for kk, v in d.meta.items() if kk in ("sorted",)}
                elif nm == 1 and lk is not None:
                    nd = app("dim?mask", lk)
                    mp[e0] = app("@maskix", lk, ix(tgt))
                    new_shape.append((nd,))
                    meta = dict(d.meta)
                    meta["masked"] = lk
                else:
                    known = False
                    new_shape.append((app("dim?mask", P(n), ONE),))
                tgt += 1
                src += nm
                continue
            if k.shape == ():
                t = k.term
                if t is None:
                    known = False
                else:
                    c = t.const()
                    if c is not None and c < 0:
                        t = P(n) + t
                    if c is not None and isinstance(n, int) and not (-n <= c < n):
                        ctx.event("index-range", n=n, i=int(c))
                        known = False
                    mp[e0] = t
                src += 1
                continue
            # integer array
            if k.shape is None or k.term is None:
                known = False
                if k.shape is None:
                    return Data(None, None, d.unit, deps, None, d.dtype)
            else:
                r = sum(len(gg) for gg in k.shape)
                mp[e0] = map_ix(k.term, {q: ix(tgt + q) for q in range(r)})
            new_shape += list(k.shape)
            tgt += sum(len(gg) for gg in k.shape)
            src += 1
            if "perm" in k.meta:
                meta["perm"] = k.meta["perm"]
                if d.term is not None and lam(d) == k.meta["perm"]:
                    meta["sorted"] = True
            continue
        known = False
        src += 1
    term = map_ix(d.term, mp) if known else None
    if not meta and all(k is None or k == ("full",) or isinstance(k, tuple) for k in nk):
        meta = {kk: v for kk, v in d.meta.items() if kk in ("sorted", "perm", "masked", "index_into")}
    if "index_into" in d.meta:
        meta["index_into"] = d.meta["index_into"]
    return Data(tuple(new_shape), term, d.unit, deps, meta, d.dtype)


def set_index(ctx, d, key, v):
    """functional update d[key] = v -> Data"""
    deps = d.deps | v.deps
    for k in key:
        if isinstance(k, Data):
            deps = deps | k.deps
    if d.shape is None:
        return d.upd(term=None, deps=deps)
    full_cover = all(k is Ellipsis or (isinstance(k, tuple) and k[0] == "slice" and k[1] is None and
                                       k[2] is None and k[3] is None) for k in key)
    nk = norm_key(d, key)
    if nk is None:
        ctx.event("index-rank", shape=show_shape([d]), n=len(key))
        return d.upd(term=None, deps=deps)
    u = merge_set_unit(ctx, d, v, full_cover)
    if full_cover:
        deps = frozenset(x for x in d.deps if x not in ("uninit",)) & frozenset() | v.deps
    if any(len(g) != 1 for g in d.shape) and not full_cover:
        return d.upd(term=None, deps=deps, unit=u)
    # selected shape
    sel_shape = []
    plan = []
    src = 0
    ok = d.term is not None
    mask = None
    for k in nk:
        if k is None:
            ok = False
            continue
        n = dmul(d.shape[src])
        if k == ("full",):
            plan.append(("full", src, n))
            sel_shape.append(d.shape[src])
        elif isinstance(k, tuple) and k[0] == "slice":
            cs = clip_slice(n, k[1], k[2], k[3])
            if k[1] is None and k[2] is None and k[3] is None:
                plan.append(("full", src, n))
                sel_shape.append(d.shape[src])
            elif cs is None or cs[2] != 1:
                ok = False
                sel_shape.append((n if cs is None else cs[1],))
                plan.append(("bad", src, n))
            else:
                plan.append(("range", src, n, cs[0], cs[1]))
                sel_shape.append((cs[1],))
        elif isinstance(k, Data) and k.shape == ():
            if k.term is None:
                ok = False
                plan.append(("bad", src, n))
            else:
                c = k.term.const()
                if c is not None and c < 0:
                    plan.append(("int", src, n, P(n) + k.term))
                else:
                    plan.append(("int", src, n, k.term))
                if c is not None and isinstance(n, int) and not (-n <= c < n):
                    ctx.event("index-range", n=n, i=int(c))
                    ok = False
        elif isinstance(k, Data) and k.dtype == "b":
            mask = k
            plan.append(("mask", src, n, k))
            sel_shape.append((app("dim?mask", P(n), ONE),))
        else:
            ok = False
            plan.append(("bad", src, n))
            if isinstance(k, Data) and k.shape is not None:
                sel_shape += list(k.shape)
        src += 1
    # check broadcast of v into selection
    if v.shape is not None and mask is None:
        vs = v.shape
        if len(vs) > len(sel_shape):
            ex = vs[:len(vs) - len(sel_shape)]
            if not all(dmul(g) == 1 for g in ex):
                ctx.event("shape-mismatch", a="store " + show_shape([Data(tuple(sel_shape)), v]), dims=("", ""))
                return d.upd(term=None, deps=deps, unit=u)
        sh, ts = broadcast(ctx, [Data(tuple(sel_shape), ONE), v])
        if sh is None:
            return d.upd(term=None, deps=deps, unit=u)
        if v.term is not None and len(vs) <= len(sel_shape):
            for a, b in zip(reversed(sel_shape), reversed(vs)):
                if dmul(a) == 1 and not (dmul(b) == 1):
                    ctx.event("shape-mismatch", a="store " + show_shape([Data(tuple(sel_shape)), v]), dims=("", ""))
                    return d.upd(term=None, deps=deps, unit=u)
        vt = ts[1]
    else:
        vt = v.term if v.shape == () else None
    if vt is None or not ok:
        return d.upd(term=None, deps=deps, unit=u)
    if mask is not None:
        if len(plan) == 1 and mask.term is not None and v.shape == ():
            m = mask.term
            return d.upd(term=vt * m + d.term * (ONE - m), deps=deps, unit=u)
        return d.upd(term=None, deps=deps, unit=u)
    nrange = sum(1 for p in plan if p[0] == "range")
    if nrange > 1:
        return d.upd(term=None, deps=deps, unit=u)

    def rec(i, old, vidx, vmap):
        if i == len(plan):
            return map_ix(vt, vmap)
        p = plan[i]
        axis = p[1]
        if p[0] == "full":
            vm = dict(vmap)
            vm[vidx] = ix(axis)
            return rec(i + 1, old, vidx + 1, vm)
        if p[0] == "int":
            n, t = p[2], p[3]
            inner = lambda o: rec(i + 1, o, vidx, vmap)
            c = t.const()
            if isinstance(n, int) and c is not None and n <= SMALL:
                items = []
                for q in range(n):
                    o = map_ix(old, {axis: P(q)})
                    items.append(inner(o) if q == c else o)
                if any(x is None for x in items):
                    return None
                return selp(ix(axis), tuple(items))
            if c == 0:
                return catp(ix(axis), [(1, inner(map_ix(old, {axis: ZERO}))),
                                       (dim(P(n) - 1), map_ix(old, {axis: CIX + 1}))])
            return None
        if p[0] == "range":
            n, lo, ext = p[2], p[3], p[4]
            vm = dict(vmap)
            if isinstance(n, int) and n <= SMALL and lo.const() is not None and isinstance(ext, int):
                items = []
                l0 = int(lo.const())
                for q in range(n):
                    o = map_ix(old, {axis: P(q)})
                    if l0 <= q < l0 + ext:
                        vm[vidx] = P(q - l0)
                        items.append(rec(i + 1, o, vidx + 1, dict(vm)))
                    else:
                        items.append(o)
                if any(x is None for x in items):
                    return None
                return selp(ix(axis), tuple(items))
            vm[vidx] = CIX
            mid = rec(i + 1, map_ix(old, {axis: CIX + lo}), vidx + 1, vm)
            if mid is None:
                return None
            pieces = []
            if lo is not ZERO:
                pieces.append((dim(lo), map_ix(old, {axis: CIX})))
            pieces.append((ext, mid))
            rest = dim(P(n) - lo - P(ext))
            if not (isinstance(rest, int) and rest == 0):
                pieces.append((rest, map_ix(old, {axis: CIX + lo + P(ext)})))
            return catp(ix(axis), pieces)
        return None
    try:
        t = rec(0, d.term, 0, {})
    except TypeError:
        t = None
    if t is not None and "uninit" in deps:
        if not any(A.kind == "app" and A.key[1] == "uninit" for A in T.atoms_of(t)):
            deps = deps - {"uninit"}
    return d.upd(term=t, deps=deps, unit=u, meta={})


def merge_set_unit(ctx, d, v, full):
    if full:
        return v.unit
    if d.unit is None or d.unit[0] == "lit" or "uninit" in d.deps:
        if d.unit is None and "uninit" not in d.deps:
            return None
        return v.unit
    if v.unit is None:
        return None
    if v.unit[0] == "lit":
        return d.unit
    if v.unit != d.unit:
        ctx.event("unit-mismatch", op="store", a=ushow(d.unit), b=ushow(v.unit), ua=d.unit, ub=v.unit)
        return None
    return d.unit


# ------------------------------------------------------------------ reductions
def reduce_sum(ctx, d, axes=None, keepdims=False):
    if d.shape is None:
        return Data(() if axes is None else None, None, d.unit, d.deps)
    n = len(d.shape)
    if axes is None:
        axes = tuple(range(n))
    axes = tuple(a % n for a in axes)
    off, tot = starts(d.shape)
    t = d.term
    if t is not None:
        for a in axes:
            for q, dd in enumerate(d.shape[a]):
                t = T.sum_ix(t, off[a] + q, dd)
        mp = {}
        e = 0
        for a in range(n):
            if a in axes:
                if keepdims:
                    e += 1
                continue
            for q in range(len(d.shape[a])):
                mp[off[a] + q] = ix(e)
                e += 1
        t = map_ix(t, mp)
    shape = tuple(g if i not in axes else (1,) for i, g in enumerate(d.shape) if keepdims or i not in axes)
    return Data(shape, t, d.unit if d.dtype != "b" else DLESS, d.deps, None, "i" if d.dtype in "bi" else "f")


def extent(d, axes=None):
    if d.shape is None:
        return None
    v = d.vis()
    if axes is None:
        return dmul(v)
    return dmul([v[a % len(v)] for a in axes])


def cumsum(ctx, d, axis=None):
    if d.shape is None:
        return Data(None, None, d.unit, d.deps)
    if axis is None:
        if len(d.shape) != 1:
            return apply_opaque("cumsumflat", [d], ((extent(d),),), unit_=d.unit)
        axis = 0
    axis %= len(d.shape)
    if len(d.shape[axis]) != 1:
        return Data(d.shape, None, d.unit, d.deps)
    off, _ = starts(d.shape)
    t = None if d.term is None else T.psum_ix(d.term, off[axis])
    n = d.shape[axis][0]
    if t is not None and isinstance(n, int) and n <= SMALL:
        items = []
        acc = ZERO
        for q in range(n):
            acc = acc + map_ix(d.term, {off[axis]: P(q)})
            items.append(acc)
        t = selp(ix(off[axis]), tuple(items))
    return Data(d.shape, t, d.unit, d.deps)


def diff(ctx, d, axis=-1):
    if d.shape is None:
        return Data(None, None, d.unit, d.deps)
    axis %= len(d.shape)
    off, _ = starts(d.shape)
    if len(d.shape[axis]) != 1:
        return Data(None, None, d.unit, d.deps)
    k = off[axis]
    n = d.shape[axis][0]
    t = None
    if d.term is not None:
        t = map_ix(d.term, {k: ix(k) + 1}) - d.term
    sh = list(d.shape)
    sh[axis] = (dim(P(n) - 1),)
    return Data(tuple(sh), t, d.unit, d.deps)


# ------------------------------------------------------------------ shape ops
def permute(d, perm):
    if d.shape is None:
        return d
    off, _ = starts(d.shape)
    mp = {}
    e = 0
    for p in perm:
        for q in range(len(d.shape[p])):
            mp[off[p] + q] = ix(e)
            e += 1
    t = None if d.term is None else map_ix(d.term, mp)
    meta = d.meta if len(perm) == 1 else {}
    return Data(tuple(d.shape[p] for p in perm), t, d.unit, d.deps, meta, d.dtype)


def reshape(ctx, d, dims):
    """dims: list of dims (int/Poly), -1 allowed"""
    if d.shape is None:
        return Data(flat(dims) if all(not (isinstance(x, int) and x < 0) for x in dims) else None,
                    None, d.unit, d.deps, None, d.dtype)
    src = [x for g in d.shape for x in g]
    tot = dmul(src)
    dims = list(dims)
    if any(isinstance(x, int) and x == -1 for x in dims):
        i = [j for j, x in enumerate(dims) if isinstance(x, int) and x == -1][0]
        rest = dmul([x for j, x in enumerate(dims) if j != i])
        q = P(tot) / P(rest)
        dims[i] = dim(q)
    elif not deq(tot, dmul(dims)):
        a, b = tot, dmul(dims)
        if (isinstance(a, int) and isinstance(b, int)) or known_distinct(P(a), P(b)):
            ctx.event("shape-mismatch", a="reshape %s -> %s" % (show_shape([d]), dims), dims=(str(a), str(b)))
            return Data(None, None, d.unit, d.deps, None, d.dtype)
    # greedy grouping
    groups = []
    i = 0
    mp = {}
    ok = True
    new_exp = []
    e_new = 0
    srcs = list(enumerate(src))
    # drop ones from the source
    mpz = {}
    core = []
    for k, x in srcs:
        if x == 1:
            mpz[k] = ZERO
        else:
            core.append((k, x))
    for x in dims:
        if x == 1:
            groups.append((1,))
            e_new += 1
            continue
        g = []
        prod = 1
        first = True
        while i < len(core) and (first or not deq(prod, x)):
            k, s = core[i]
            nxt = s if first else dmul([prod, s])
            g.append(s)
            mp[k] = ix(e_new)
            e_new += 1
            prod = nxt
            i += 1
            first = False
            if deq(prod, x):
                break
            if isinstance(prod, int) and isinstance(x, int) and prod > x:
                break
            if isinstance(prod, Poly) and isinstance(x, int):
                break
        if not deq(prod, x) or not g:
            ok = False
            break
        groups.append(tuple(g))
    if ok and i == len(core):
        mp.update(mpz)
        t = None if d.term is None else map_ix(d.term, mp)
        return Data(tuple(groups), t, d.unit, d.deps, {k: v for k, v in d.meta.items() if k == "index_into"}, d.dtype)
    # splitting of a small concrete flat axis
    if all(isinstance(x, int) for x in dims) and all(isinstance(x, int) for x in src) and d.term is not None \
            and dmul(src) <= 64:
        return _reshape_small(d, src, dims)
    return Data(flat(dims), None, d.unit, d.deps, {k: v for k, v in d.meta.items() if k == "index_into"}, d.dtype)


def _reshape_small(d, src, dims):
    def at(flatpos):
        idx = []
        for s in reversed(src):
            idx.append(flatpos % s)
            flatpos //= s
        idx.reverse()
        return map_ix(d.term, {k: P(v) for k, v in enumerate(idx)})

    def build(pre, rest, k):
        if not rest:
            pos = 0
            for v, n in zip(pre, dims):
                pos = pos * n + v
            return at(pos)
        return selp(ix(k), tuple(build(pre + [v], rest[1:], k + 1) for v in range(rest[0])))
    return Data(flat(dims), build([], list(dims), 0), d.unit, d.deps, None, d.dtype)


def squeeze(d, axes=None):
    if d.shape is None:
        return d
    key = []
    for i, g in enumerate(d.shape):
        if dmul(g) == 1 and (axes is None or i in axes):
            key.append(num(0))
        else:
            key.append(("full",))
    return index(Ctx(), d, key)


def stack(ctx, datas, axis=0):
    shape, ts = broadcast_same(ctx, datas)
    deps = union(*[d.deps for d in datas])
    u = common_unit([d.unit for d in datas])
    n = len(datas)
    if shape is None:
        return Data(None, None, u, deps)
    r = len(shape)
    if axis < 0:
        axis += r + 1
    off, tot = starts(shape)
    e = sum(len(g) for g in shape[:axis])
    term = None
    if all(t is not None for t in ts):
        mp = {k: ix(k + 1) for k in range(e, tot)}
        ts2 = [map_ix(t, mp) for t in ts]
        term = selp(ix(e), tuple(ts2))
    return Data(shape[:axis] + ((n,),) + shape[axis:], term, u, deps,
                {"cols": tuple(d.unit for d in datas)}, datas[0].dtype if datas else "f")


def broadcast_same(ctx, datas):
    if not datas:
        return ((0,),), []
    if any(d.shape is None for d in datas):
        return None, [None]
    r = {len(d.shape) for d in datas}
    if len(r) != 1:
        ctx.event("shape-mismatch", a="stack " + show_shape(datas), dims=("", ""))
        return None, [None]
    for d in datas[1:]:
        for g, h in zip(datas[0].shape, d.shape):
            a, b = dmul(g), dmul(h)
            if not deq(a, b) and ((isinstance(a, int) and isinstance(b, int)) or known_distinct(a, b)):
                ctx.event("shape-mismatch", a="stack " + show_shape(datas), dims=(str(a), str(b)))
                return None, [None]
    if any(d.grouped() for d in datas) and any(d.shape != datas[0].shape for d in datas):
        return datas[0].shape, [None]
    return datas[0].shape, [d.term for d in datas]


def common_unit(us):
    k = [u for u in us if u is not None and u[0] == "u"]
    if any(u is None for u in us):
        return None
    if not k:
        return LIT if us else LIT
    return k[0] if all(u == k[0] for u in k) else None


def ungroup(d):
    """axes of several factors (from reshape) as plain axes: index I -> (I // n, I % n)"""
    if d.shape is None or d.term is None or not d.grouped():
        return d
    mp, e, k = {}, 0, 0
    for g in d.shape:
        if len(g) == 1:
            mp[e] = ix(k)
        else:
            I = ix(k)
            for q in range(len(g) - 1, 0, -1):
                n = P(g[q])
                J = app("floor", I / n)
                mp[e + q] = I - n * J
                I = J
            mp[e] = I
        e += len(g)
        k += 1
    term = map_ix(d.term, mp)
    return d.upd(shape=tuple((dmul(g),) for g in d.shape), term=term)


def const_mask(k):
    """positions of a mask whose every entry is a known constant, or None"""
    if k.term is None or k.shape is None or len(k.shape) != 1 or len(k.shape[0]) != 1 or not isinstance(k.shape[0][0], int) or k.shape[0][0] > 64:
        return None
    out = []
    for q in range(k.shape[0][0]):
        c = map_ix(k.term, {0: P(q)}).const()
        if c is None:
            return None
        if c:
            out.append(q)
    return out


def concat(ctx, datas, axis=0):
    datas = [ungroup(d) if d.grouped() else d for d in datas]
    deps = union(*[d.deps for d in datas])
    u = common_unit([d.unit for d in datas if not (d.shape is not None and extent(d) == 0)]) if datas else LIT
    datas = [d for d in datas if not (d.shape is not None and extent(d) == 0)] or datas[:1]
    if len(datas) == 1:
        return datas[0].upd(deps=deps)
    if any(d.shape is None for d in datas):
        return Data(None, None, u, deps)
    r = len(datas[0].shape)
    if any(len(d.shape) != r for d in datas):
        ctx.event("shape-mismatch", a="concatenate " + show_shape(datas), dims=("", ""))
        return Data(None, None, u, deps)
    axis %= r
    for d in datas[1:]:
        for k in range(r):
            if k == axis:
                continue
            a, b = dmul(datas[0].shape[k]), dmul(d.shape[k])
            if not deq(a, b) and ((isinstance(a, int) and isinstance(b, int)) or known_distinct(a, b)):
                ctx.event("shape-mismatch", a="concatenate " + show_shape(datas), dims=(str(a), str(b)))
                return Data(None, None, u, deps)
    ext = [dmul(d.shape[axis]) for d in datas]
    total = ext[0]
    for e in ext[1:]:
        total = dim(P(total) + P(e))
    sh = list(datas[0].shape)
    sh[axis] = (total,)
    grouped = any(d.grouped() for d in datas)
    term = None
    if not grouped and all(d.term is not None for d in datas):
        if isinstance(total, int) and total <= SMALL and all(isinstance(e, int) for e in ext):
            items = []
            for d, e in zip(datas, ext):
                for q in range(e):
                    items.append(map_ix(d.term, {axis: P(q)}))
            term = selp(ix(axis), tuple(items))
        else:
            pieces = []
            for d, e in zip(datas, ext):
                pieces += split_pieces(d.term, axis, e)
            term = catp(ix(axis), pieces)
    meta = {}
    if axis == 0 and r == 2:
        meta = {}
    return Data(tuple(sh), term, u, deps, meta, datas[0].dtype)


def split_pieces(term, axis, e):
    """flatten an existing concatenation along `axis`"""
    if len(term.t) == 1:
        ((m, c),) = term.t.items()
        if len(m) == 1 and c == 1 and m[0][1] == 1:
            A = T._ATOM_LIST[m[0][0]]
            if A.kind == "cat" and A.key[1] is ix(axis):
                L = A.key[3]
                return [(d, T.cat_at(q, L, CIX)) for d, q in A.key[2]]
    return [(e, map_ix(term, {axis: CIX}))]


def pieces_of(term, axis=0):
    """list of piece bodies of a term along an axis: every cat atom on that axis
    is replaced by its j-th piece.  -> list of (dim, Poly over CIX-as-ix(axis)) or None"""
    cats = [A for A in T.atoms_of(term) if A.kind == "cat" and A.key[1] is ix(axis)]
    if not cats:
        return None
    dims = [tuple(d if not isinstance(d, Poly) else d for d, _ in A.key[2]) for A in cats]
    if any(x != dims[0] for x in dims):
        return None
    out = []
    for j, dd in enumerate(dims[0]):
        def f(A, j=j):
            if A.kind == "cat" and A.key[1] is ix(axis):
                return T.cat_at(A.key[2][j][1], A.key[3], ix(axis))
            return None
        out.append((dd, subst(term, f)))
    return out


def einsum(ctx, spec, datas):
    spec = spec.replace(" ", "")
    deps = union(*[d.deps for d in datas])
    u = datas[0].unit
    for d in datas[1:]:
        u = umul(u, d.unit)
    if "..." in spec:
        return Data(None, None, u, deps)
    ins, out = (spec.split("->") + [None])[:2]
    ins = ins.split(",")
    if len(ins) != len(datas):
        return Data(None, None, u, deps)
    if out is None:
        alll = "".join(ins)
        out = "".join(sorted(c for c in set(alll) if alll.count(c) == 1))
    ext = {}
    for s, d in zip(ins, datas):
        if d.shape is None:
            return Data(None, None, u, deps)
        if len(s) != len(d.shape):
            ctx.event("shape-mismatch", a="einsum %s %s" % (spec, show_shape(datas)), dims=("", ""))
            return Data(None, None, u, deps)
        for c, g in zip(s, d.shape):
            n = dmul(g)
            if c in ext and not deq(ext[c], n) and n != 1:
                if (isinstance(ext[c], int) and isinstance(n, int)) or known_distinct(ext[c], n):
                    ctx.event("shape-mismatch", a="einsum %s %s" % (spec, show_shape(datas)),
                              dims=(str(ext[c]), str(n)))
                    return Data(None, None, u, deps)
            if c not in ext or ext[c] == 1:
                ext[c] = n
    shape = tuple((ext[c],) for c in out)
    if any(d.term is None or d.grouped() for d in datas):
        return Data(shape, None, u, deps)
    num_ = {c: 100 + i for i, c in enumerate(sorted(ext))}
    t = ONE
    for s, d in zip(ins, datas):
        t = t * map_ix(d.term, {k: ix(num_[c]) for k, c in enumerate(s)})
    for c in sorted(ext):
        if c not in out:
            t = T.sum_ix(t, num_[c], ext[c])
    t = map_ix(t, {num_[c]: ix(k) for k, c in enumerate(out)})
    return Data(shape, t, u, deps)


def matmul(ctx, a, b):
    if a.shape is None or b.shape is None:
        return Data(None, None, umul(a.unit, b.unit), a.deps | b.deps)
    if a.shape == () or b.shape == ():
        return binop(ctx, "*", a, b)
    la, lb = len(a.shape), len(b.shape)
    if la == 1 and lb == 1:
        return einsum(ctx, "i,i->", [a, b])
    if la == 1 and lb == 2:
        return einsum(ctx, "i,ij->j", [a, b])
    if la == 2 and lb == 1:
        return einsum(ctx, "ij,j->i", [a, b])
    if la == 2 and lb == 2:
        return einsum(ctx, "ij,jk->ik", [a, b])
    return Data(None, None, umul(a.unit, b.unit), a.deps | b.deps)


def cross(ctx, a, b):
    """last-axis cross product"""
    def comp(d, k):
        return index(ctx, d, [Ellipsis, num(k)])
    if a.shape is None or b.shape is None:
        return Data(None, None, umul(a.unit, b.unit), a.deps | b.deps)
    A = [comp(a, k) for k in range(3)]
    B = [comp(b, k) for k in range(3)]
    res = []
    for i in range(3):
        j, k = (i + 1) % 3, (i + 2) % 3
        res.append(binop(ctx, "-", binop(ctx, "*", A[j], B[k]), binop(ctx, "*", A[k], B[j])))
    return stack(ctx, res, axis=-1)
