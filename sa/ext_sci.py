"""Transfer functions for scipy / sympy / numba / skimage / lmfit / multiprocessing / files / plotting."""
import ast
from fractions import Fraction
import terms as T
from terms import P, Poly, ZERO, ONE, ix, map_ix, app, sym, PI, atom, selp, catp, CIX, subst
from values import *
import ops
from ops import num, union
from ext import reg, arg, CALLS, OBJATTR, OBJITEM, OBJBIN, ENTER, EXIT, SETATTR, toint, py
import ext as EX
from ext_np import td, UNK, MISSING

# ------------------------------------------------------------------ constants
HBAR = sym("hbar", pos=True)
EL = sym("e", pos=True)
KB = sym("kB", pos=True)
ME = sym("m_e", pos=True)


def const(p, u):
    return Arr(Data((), p, u))


CONST = {
    "scipy.constants.hbar": (HBAR, unit(J=1, s=1)),
    "scipy.constants.h": (HBAR * PI * 2, unit(J=1, s=1)),
    "scipy.constants.Planck": (HBAR * PI * 2, unit(J=1, s=1)),
    "scipy.constants.elementary_charge": (EL, unit(C=1)),
    "scipy.constants.e": (EL, unit(C=1)),
    "scipy.constants.eV": (EL, unit(J=1, eV=-1)),
    "scipy.constants.electron_volt": (EL, unit(J=1, eV=-1)),
    "scipy.constants.Boltzmann": (KB, unit(J=1, K=-1)),
    "scipy.constants.k": (KB, unit(J=1, K=-1)),
    "scipy.constants.electron_mass": (ME, unit(kg=1)),
    "scipy.constants.m_e": (ME, unit(kg=1)),
    "scipy.constants.pi": (PI, DLESS),
    "scipy.constants.angstrom": (P(1e-10), unit(m=1, Ang=-1)),
    "scipy.constants.pico": (P(1e-12), LIT),
    "scipy.constants.milli": (P(1e-3), LIT),
    "numpy.pi": (PI, DLESS), "math.pi": (PI, DLESS),
    "numpy.e": (app("euler"), DLESS), "math.e": (app("euler"), DLESS),
    "numpy.inf": (app("inf"), LIT), "math.inf": (app("inf"), LIT),
    "numpy.nan": (app("nan"), LIT), "math.nan": (app("nan"), LIT),
    "numpy.newaxis": None,
}
PHYSC = {"electron volt": (EL, unit(J=1, eV=-1)), "Boltzmann constant": (KB, unit(J=1, K=-1)),
         "elementary charge": (EL, unit(C=1)), "electron mass": (ME, unit(kg=1)),
         "reduced Planck constant": (HBAR, unit(J=1, s=1)), "Planck constant": (HBAR * PI * 2, unit(J=1, s=1))}


class NoneMark:
    pass


def constant(it, path):
    c = CONST.get(path)
    if c is not None:
        return const(*c)
    return None


def ext_item(it, path, k):
    if path == "scipy.constants.physical_constants" and isinstance(k, str):
        c = PHYSC.get(k)
        if c is None:
            return TopV("physical_constants")
        return (const(*c), "unit", 0)
    return None


# ------------------------------------------------------------------ sympy
class Expr:
    """payload of an abstract symbolic expression"""
    __slots__ = ("p", "extra", "names", "dvars")


def mkexpr(p, extra=DLESS, dvars=()):
    o = ObjV("sympy.Expr")
    o.attrs = {"p": p, "extra": extra, "dvars": dvars}
    return o


@reg("sympy.Symbol")
def sp_symbol(it, a, k):
    name = a[0]
    if not isinstance(name, str):
        return TopV("sympy.Symbol", it.deps(name))
    flags = "".join("|" + x for x in sorted(k) if k[x] is True)
    o = mkexpr(sym("$" + name + flags))
    o.attrs["name"] = name
    o.attrs["sym"] = "$" + name + flags
    return o


@reg("sympy.symbols")
def sp_symbols(it, a, k):
    if isinstance(a[0], str):
        ns = a[0].replace(",", " ").split()
        r = [sp_symbol(it, [n], k) for n in ns]
        return r[0] if len(r) == 1 else tuple(r)
    return TopV("sympy.symbols")


FUNCS = {"cos", "sin", "tan", "sqrt", "exp", "log", "Abs", "pi", "E", "cosh", "sinh", "Max", "Min", "I", "abs"}


@reg("sympy.sympify", "sympy.S", "sympy.parse_expr", "sympy.parsing.sympy_parser.parse_expr")
def sp_sympify(it, a, k):
    s = a[0]
    if isinstance(s, ObjV) and s.cls == "sympy.Expr":
        return s
    if isinstance(s, Arr) or isinstance(s, (int, float)):
        d = it.to_data(s)
        if d.term is not None and d.shape == ():
            return mkexpr(d.term, d.unit or DLESS)
        return TopV("sympify", d.deps)
    if not isinstance(s, str):
        return TopV("sympify", it.deps(s))
    try:
        tree = ast.parse(s.strip(), mode="eval")
    except SyntaxError:
        raise AbsExc("ValueError", "sympify of an invalid expression", it.loc())
    names = sorted({n.id for n in ast.walk(tree) if isinstance(n, ast.Name)} - FUNCS)
    loc = arg(a, k, 1, "locals")
    m = {}
    if isinstance(loc, DictV):
        for kk, vv in loc.d.values():
            if isinstance(vv, ObjV) and "sym" in vv.attrs:
                m[kk] = vv.attrs["sym"]
    pairs = tuple((n, sym(m.get(n, "$" + n))) for n in names)
    return mkexpr(P(atom("app", "ENERGY", ("E[" + norm_model(tree) + "]",) + pairs)))


def norm_model(tree):
    import hashlib
    h = hashlib.sha256(ast.dump(tree).encode()).hexdigest()[:8]
    DECIMALS[h] = any(isinstance(n, ast.Constant) and isinstance(n.value, float) and n.value != int(n.value) for n in ast.walk(tree))
    return h


DECIMALS = {}       # models with decimal numbers in their text


def approximated(o, how):
    """the expression with its numbers approximated"""
    if not isinstance(o, ObjV) or o.cls != "sympy.Expr":
        return o

    def f(A):
        if A.kind == "app" and A.key[1] == "ENERGY":
            tag = A.key[2][0]
            if DECIMALS.get(tag[2:10]):
                return P(atom("app", "ENERGY", (tag.replace("]", " with numbers approximated (%s)]" % how, 1),) + A.key[2][1:]))
        return None
    e = mkexpr(subst(o.attrs["p"], f), o.attrs["extra"], o.attrs["dvars"])
    for n in ("name", "sym"):
        if n in o.attrs:
            e.attrs[n] = o.attrs[n]
    return e


def sp_nsimplify(it, a, k):
    tol = arg(a, k, 2, "tolerance")
    return a[0] if tol is None else approximated(a[0], "nsimplify")


def sp_evalf(it, a, k):
    n = arg(a, k, 1, "n", 15)
    return a[0] if isinstance(n, int) and n >= 15 else approximated(a[0], "%s digits" % n)


def sp_diff(it, a, k):
    e, v = a[0], a[1] if len(a) > 1 else None
    if not (isinstance(e, ObjV) and e.cls == "sympy.Expr") or not (isinstance(v, ObjV) and "sym" in v.attrs):
        return TopV("sympy.diff", it.deps(tuple(a)))
    p = T.diffp(e.attrs["p"], v.attrs["sym"])
    return mkexpr(p, e.attrs["extra"], e.attrs["dvars"] + (v.attrs["name"],))


CALLS["sympy.diff"] = sp_diff
for _n in ("simplify", "expand", "factor", "trigsimp", "expand_trig", "collect", "together", "cancel", "radsimp", "powsimp", "expand_mul"):
    CALLS["sympy." + _n] = lambda it, a, k: a[0]
CALLS["sympy.nsimplify"] = sp_nsimplify
CALLS["sympy.N"] = sp_evalf


def expr_attr(it, o, name):
    import interp
    if name == "name":
        return o.attrs.get("name", "expr")
    if name == "diff":
        return py(lambda i2, a, k: sp_diff(i2, [o] + list(a), k), "Expr.diff")
    if name in ("simplify", "expand", "doit", "factor", "trigsimp", "copy"):
        return py(lambda i2, a, k: o, "Expr." + name)
    if name == "nsimplify":
        return py(lambda i2, a, k: approximated(o, "nsimplify") if arg(a, k, 1, "tolerance") is not None else o, "Expr.nsimplify")
    if name in ("evalf", "n"):
        return py(lambda i2, a, k: sp_evalf(i2, [o] + list(a), k), "Expr." + name)
    if name == "round":
        return py(lambda i2, a, k: approximated(o, "round"), "Expr.round")
    if name in ("is_zero",):
        return o.attrs["p"] is ZERO
    if name in ("subs", "xreplace"):
        def subs(i2, a, k):
            if len(a) == 2 and isinstance(a[0], ObjV) and "sym" in a[0].attrs:
                d = td(i2, a[1]) if not isinstance(a[1], ObjV) else None
                q = a[1].attrs["p"] if d is None and a[1].cls == "sympy.Expr" else d.term if d is not None else None
                if q is not None:
                    s = a[0].attrs["sym"]
                    return mkexpr(subst(o.attrs["p"], lambda A: q if A.kind == "sym" and A.key[1] == s else None),
                                  o.attrs["extra"], o.attrs["dvars"])
            return TopV("subs")
        return py(subs, "Expr.subs")
    if name == "free_symbols":
        return it.mkset([mksym(n) for n in sorted(T.syms_of(o.attrs["p"])) if str(n).startswith("$")])
    if name in ("has",):
        def has(i2, a, k):
            return any(isinstance(x, ObjV) and x.attrs.get("sym") in T.syms_of(o.attrs["p"]) for x in a)
        return py(has, "Expr.has")
    return TopV("Expr." + name)


def mksym(s):
    o = mkexpr(sym(s))
    o.attrs["name"] = s[1:].split("|")[0]
    o.attrs["sym"] = s
    return o


OBJATTR["sympy.Expr"] = expr_attr


def expr_binop(it, op, a, b):
    def cv(x):
        if isinstance(x, ObjV) and x.cls == "sympy.Expr":
            return x.attrs["p"], x.attrs["extra"], x.attrs["dvars"]
        d = it.to_data(x)
        if d is None or d.shape != () or d.term is None:
            return None
        return d.term, d.unit, ()
    x, y = cv(a), cv(b)
    if x is None or y is None:
        return TopV("sympy." + op, it.deps(a) | it.deps(b))
    dv = x[2] or y[2]
    if op == "*":
        return mkexpr(x[0] * y[0], umul(x[1], y[1]), dv)
    if op == "/":
        return mkexpr(x[0] / y[0], umul(x[1], y[1], -1), dv)
    if op == "+":
        return mkexpr(x[0] + y[0], x[1], dv)
    if op == "-":
        return mkexpr(x[0] - y[0], x[1], dv)
    if op == "**":
        return mkexpr(T.powp(x[0], y[0]), None, dv)
    return TopV("sympy." + op)


OBJBIN["sympy.Expr"] = expr_binop

ABC = {"kx": "a", "ky": "b", "kz": "c"}


def eval_expr(it, e, env):
    """expression payload + {printed name: Data} -> Data"""
    p = e.attrs["p"]
    need = sorted(n for n in T.syms_of(p) if str(n).startswith("$"))
    ds, keys = [], []
    for n in need:
        nm = n[1:].split("|")[0]
        if nm not in env:
            it.event("lambda-unbound", name=nm)
            raise AbsExc("NameError", "name '%s' is not defined (lambdified expression)" % nm, it.loc())
        keys.append(n)
        ds.append(env[nm])
    if not ds:
        return Data((), p, e.attrs["extra"])
    # the dispersion must be a function of dimensionless phases k*a
    for kn, an in ABC.items():
        if kn in env and an in env:
            u = umul(env[kn].unit, env[an].unit)
            if u is not None and u[1] and u[0] == "u" and env[kn].unit[0] == "u" and env[an].unit[0] == "u":
                it.event("unit-arg", func="dispersion " + kn + "*" + an, a=ushow(u), ua=u)
    shape, ts = ops.broadcast(it, ds)
    deps = union(*[d.deps for d in ds])
    term = None
    if all(t is not None for t in ts):
        m = dict(zip(keys, ts))
        term = subst(p, lambda A: m.get(A.key[1]) if A.kind == "sym" else None)
    eu = None
    pu = {env[n].unit for n in [k[1:].split("|")[0] for k in keys] if n not in ("kx", "ky", "kz", "a", "b", "c")}
    if len(pu) == 1:
        eu = next(iter(pu))
    elif len(pu) > 1:
        kn = {u for u in pu if u is not None and u[0] == "u"}
        if len(kn) > 1:
            it.event("unit-mismatch", op="dispersion parameters", a=ushow(sorted(kn, key=str)[0]),
                     b=ushow(sorted(kn, key=str)[1]))
    u = umul(eu, e.attrs["extra"])
    for v in e.attrs["dvars"]:
        u = umul(u, env[v].unit if v in env else None, -1)
    return Data(shape, term, u, deps)


@reg("sympy.lambdify", "sympy.utilities.lambdify.lambdify")
def sp_lambdify(it, a, k):
    vars_, body = it.iterate(a[0]), a[1]
    names = []
    for v in vars_:
        if isinstance(v, ObjV) and "name" in v.attrs:
            names.append(v.attrs["name"])
        elif isinstance(v, str):
            names.append(v)
        else:
            names.append(None)
    isl = isinstance(body, (ListV, tuple))
    exprs = it.iterate(body) if isl else [body]

    def f(i2, args, kw):
        if kw:
            for n, v in kw.items():
                if n in names and names.index(n) >= len(args):
                    pass
        if len(args) + len(kw) != len(names):
            i2.event("call-mismatch", func="lambdified function", why="%d arguments for %d symbols" % (
                len(args), len(names)))
            raise AbsExc("TypeError", "lambdified function arity", i2.loc())
        env = {}
        for n, v in zip(names, args):
            env[n] = td(i2, v)
        for n, v in kw.items():
            env[n] = td(i2, v)
        out = []
        i2.event("dispersion", env=env)
        for e in exprs:
            if isinstance(e, ObjV) and e.cls == "sympy.Expr":
                out.append(Arr(eval_expr(i2, e, env)))
            elif isinstance(e, str):
                out.append(str_expr(i2, e, env))
            elif isinstance(e, (int, float)) or isinstance(e, Arr):
                out.append(Arr(td(i2, e)))
            else:
                out.append(TopV("lambdified", i2.deps(e)))
        if isinstance(body, tuple):
            return tuple(out)
        return ListV(out) if isl else out[0]
    g = PyV(f, "lambdified")
    g.attrs["params"] = names
    return g


def str_expr(it, s, env):
    try:
        t = ast.parse(s, mode="eval").body
    except SyntaxError:
        raise AbsExc("SyntaxError", s, it.loc())
    return str_ev(it, t, env)


def str_ev(it, t, env):
    if isinstance(t, ast.Name):
        if t.id not in env:
            it.event("lambda-unbound", name=t.id)
            raise AbsExc("NameError", t.id, it.loc())
        return Arr(env[t.id])
    if isinstance(t, ast.Constant):
        return Arr(num(t.value))
    if isinstance(t, ast.Call):
        path = ast.unparse(t.func)
        if path in ("zeros_like", "ones_like"):
            path = "numpy." + path
        return EX.call(it, path.replace("np.", "numpy."), [str_ev(it, x, env) for x in t.args], {})
    if isinstance(t, ast.BinOp):
        import interp
        return it.binop(interp.BINOPS[type(t.op)], str_ev(it, t.left, env), str_ev(it, t.right, env))
    if isinstance(t, ast.UnaryOp):
        return it.unop("-", str_ev(it, t.operand, env))
    return TopV("lambda-string")


@reg("numba.jit", "numba.njit", "numba.vectorize")
def nb_jit(it, a, k):
    if a and not isinstance(a[0], (str, tuple, ListV)):
        return a[0]
    return PyV(lambda i2, b, kk: b[0], "jit")


@reg("numba.prange")
def nb_prange(it, a, k):
    return EX.b_range(it, a, k)


# ------------------------------------------------------------------ scipy solvers
@reg("scipy.optimize.brentq", "scipy.optimize.bisect", "scipy.optimize.ridder", "scipy.optimize.brenth")
def sp_brentq(it, a, k):
    f, lo, hi = a[0], a[1], a[2]
    ex = arg(a, k, 3, "args", ())
    ex = list(it.iterate(ex)) if isinstance(ex, (tuple, ListV)) else [ex]
    it.call(f, [lo] + ex, {})
    it.call(f, [hi] + ex, {})
    n = it.fresh("trial")
    x = Arr(Data((), sym(n), LIT, frozenset({n})))
    v = it.call(f, [x] + ex, {})
    n = it.fresh("root")
    it.event("root", name=n, trial=x, value=v, bracket=(lo, hi))
    return Arr(Data((), sym(n), LIT, frozenset({n})))


@reg("scipy.optimize.root_scalar", "scipy.optimize.fsolve", "scipy.optimize.newton", "scipy.optimize.minimize_scalar")
def sp_root(it, a, k):
    f = a[0]
    n = it.fresh("trial")
    ex = arg(a, k, 99, "args", ())
    ex = list(it.iterate(ex)) if isinstance(ex, (tuple, ListV)) else [ex]
    x = Arr(Data((), sym(n), LIT, frozenset({n})))
    v = it.call(f, [x] + ex, {})
    n = it.fresh("root")
    it.event("root", name=n, trial=x, value=v, bracket=None)
    o = ObjV("scipy.root")
    o.attrs["root"] = Arr(Data((), sym(n), LIT, frozenset({n})))
    return o


OBJATTR["scipy.root"] = lambda it, o, name: o.attrs["root"] if name in ("root", "x") else TopV("root." + name)


@reg("scipy.integrate.odeint")
def sp_odeint(it, a, k):
    f, y0, t = arg(a, k, 0, "func"), td(it, arg(a, k, 1, "y0")), td(it, arg(a, k, 2, "t"))
    ex = arg(a, k, 3, "args", ())
    ex = list(it.iterate(ex)) if isinstance(ex, (tuple, ListV)) else [ex]
    tfirst = k.get("tfirst") is True
    return ode(it, f, y0, t, ex, tfirst, k)


def ode(it, f, y0, t, ex, tfirst, kw=None):
    if y0.shape is None or len(y0.shape) != 1:
        if y0.shape is not None and y0.shape != ():
            it.event("shape-mismatch", a="odeint y0 " + ops.show_shape([y0]), dims=("", ""))
    tag = it.fresh("ode")
    sh = y0.shape
    st = None
    if sh is not None:
        n = sum(len(g) for g in sh)
        st = P(atom("app", "@state", (tag,) + tuple(ix(q) for q in range(n))))
    state = Arr(Data(sh, st, y0.unit, y0.deps))
    time = Arr(Data((), sym("$t"), t.unit, frozenset()))
    n0 = len(it.events)
    rhs = it.call(f, [time, state] + ex if tfirst else [state, time] + ex, {})
    rd = td(it, rhs)
    if rd.shape is not None and sh is not None:
        if len(rd.shape) != 1 or not deq(dmul(rd.shape[0]), dmul(sh[0])):
            it.event("shape-mismatch", a="odeint rhs " + ops.show_shape([rd, y0]), dims=("", ""))
    it.event("odeint", y0=y0, t=t, rhs=rd, state=st, tag=tag, kw=dict(kw or {}))
    deps = y0.deps | t.deps | rd.deps
    if sh is None or t.shape is None or len(t.shape) != 1:
        return Arr(Data(None, None, y0.unit, deps))
    n = sum(len(g) for g in sh)
    lt, ly, lr = ops.lam(t), ops.lam(y0), ops.lam(rd) if rd.shape is not None else None
    term = None
    if lt and ly and lr:
        # the solution does not depend on the name of the state variable
        lr2 = ("lam", lr[1], subst(lr[2], lambda A: P(atom("app", "@state", ("*",) + A.key[2][1:]))
                                   if A.kind == "app" and A.key[1] == "@state" and A.key[2][0] == tag else None)) + lr[3:]
        term = P(atom("app", "@ode", (lt, ly, lr2, ix(0)) + tuple(ix(q + 1) for q in range(n))))
    return Arr(Data((t.shape[0],) + sh, term, y0.unit, deps))


@reg("scipy.integrate.solve_ivp")
def sp_ivp(it, a, k):
    f, y0 = arg(a, k, 0, "fun"), td(it, arg(a, k, 2, "y0"))
    t = k.get("t_eval")
    tdta = td(it, t) if t is not None else Data(((app("dim?ivp", ONE),),), None, None)
    r = ode(it, f, y0, tdta, [], True, k)
    o = ObjV("ivp")
    import ext_np
    o.attrs["y"] = ext_np.transpose(it, r)
    o.attrs["t"] = Arr(tdta)
    return o


OBJATTR["ivp"] = lambda it, o, name: o.attrs.get(name, TopV("ivp." + name))


# ------------------------------------------------------------------ skimage
@reg("skimage.measure.find_contours")
def sk_contours(it, a, k):
    img = td(it, a[0])
    lev = td(it, arg(a, k, 1, "level")) if arg(a, k, 1, "level") is not None else None
    n = it.config.get("contours", 2)
    if callable(n):
        n = n(it)
    im2 = img if lev is None else ops.binop(ops.Ctx(), "-", img, lev)
    if lev is not None:
        ops.add_units(it, ops.zero_ok([img.unit, lev.unit], [img, lev]), "find_contours")
    it.event("find_contours", img=img, level=lev)
    out = []
    l = ops.lam(im2) if im2.shape is not None else None
    dep = im2.deps
    for j in range(n):
        nd = P(atom("app", "@nc", (l, j), pos=True)) if l else app("dim?nc", P(j))
        t = P(atom("app", "@contour", (l, j, ix(0), ix(1)))) if l else None
        out.append(Arr(Data(((nd,), (2,)), t, DLESS, dep, {"contour": True})))
    return ListV(out)


@reg("skimage.measure.marching_cubes", "skimage.measure.marching_cubes_lewiner")
def sk_mc(it, a, k):
    vol = td(it, a[0])
    lev = td(it, arg(a, k, 1, "level")) if arg(a, k, 1, "level") is not None else num(0)
    sp = arg(a, k, 2, "spacing", None)
    if vol.shape is not None and len(vol.shape) != 3:
        it.event("shape-mismatch", a="marching_cubes " + ops.show_shape([vol]), dims=("", ""))
    ops.add_units(it, ops.zero_ok([vol.unit, lev.unit], [vol, lev]), "marching_cubes")
    v2 = ops.binop(ops.Ctx(), "-", vol, lev)
    l = ops.lam(v2) if v2.shape is not None else None
    it.event("marching_cubes", vol=vol, level=lev, spacing=sp)
    sps = [td(it, x) for x in it.iterate(sp)] if sp is not None else [num(1)] * 3
    deps = v2.deps | union(*[s.deps for s in sps])
    u = ops.common_unit([s.unit for s in sps])
    nv = P(atom("app", "@nv", (l,), pos=True)) if l else app("dim?nv")
    nf = P(atom("app", "@nf", (l,), pos=True)) if l else app("dim?nf")
    t = None
    if l and all(s.term is not None and s.shape == () for s in sps):
        g = P(atom("app", "@mcv", (l, ix(0), ix(1))))
        t = g * selp(ix(1), tuple(s.term for s in sps))
    verts = Arr(Data(((nv,), (3,)), t, u, deps))
    ft = P(atom("app", "@faces", (l, ix(0), ix(1)))) if l else None
    faces = Arr(Data(((nf,), (3,)), ft, DLESS, v2.deps, {"index_into": nv}, "i"))
    normals = Arr(Data(((nv,), (3,)), P(atom("app", "@normals", (l, ix(0), ix(1)))) if l else None, DLESS, v2.deps))
    vals = Arr(Data(((nv,),), P(atom("app", "@values", (l, ix(0)))) if l else None, vol.unit, v2.deps))
    return (verts, faces, normals, vals)


@reg("skimage.measure.mesh_surface_area")
def sk_area(it, a, k):
    return Arr(Data((), None, None, it.deps(tuple(a))))


@reg("tqdm.tqdm", "tqdm.auto.tqdm", "tqdm.trange")
def tq(it, a, k):
    return a[0]


# ------------------------------------------------------------------ lmfit
@reg("lmfit.Parameters")
def lm_params(it, a, k):
    o = ObjV("lmfit.Parameters")
    o.attrs = {"d": DictV()}
    return o


def lm_attr(it, o, name):
    d = o.attrs["d"]
    if name == "add":
        def add(i2, a, k):
            nm = arg(a, k, 0, "name")
            val = arg(a, k, 1, "value")
            i2.event("fit-param", name=nm, value=val, min=k.get("min"), max=k.get("max"), vary=k.get("vary", True))
            p = ObjV("lmfit.Parameter")
            p.attrs = {"name": nm, "value": val, "vary": arg(a, k, 2, "vary", True), "min": k.get("min"),
                       "max": k.get("max")}
            if i2.config.get("fit_symbols") and isinstance(nm, str):
                s = "fit:" + nm
                p.attrs["value"] = Arr(Data((), sym(s), i2.to_data(val).unit if i2.to_data(val) is not None else None,
                                            frozenset({s})))
                p.attrs["init"] = val
            i2.setitem(d, nm, p)
        return py(add, "Parameters.add")
    if name == "valuesdict":
        def vd(i2, a, k):
            r = DictV()
            for kk, (n, p) in d.d.items():
                r.d[kk] = (n, p.attrs.get("value"))
            return r
        return py(vd, "valuesdict")
    if name in ("keys", "values", "items", "get"):
        return EX.dict_attr(it, d, name)
    return TopV("Parameters." + name)


OBJATTR["lmfit.Parameters"] = lm_attr
OBJITEM["lmfit.Parameters"] = lambda it, o, k: it.getitem(o.attrs["d"], k)
OBJATTR["lmfit.Parameter"] = lambda it, o, name: o.attrs.get(name, TopV("Parameter." + name))


@reg("lmfit.minimize")
def lm_minimize(it, a, k):
    fcn, params = arg(a, k, 0, "fcn"), arg(a, k, 1, "params")
    ex = k.get("args", ())
    ex = list(it.iterate(ex)) if isinstance(ex, (tuple, ListV)) else []
    kws = {}
    if isinstance(k.get("kws"), DictV):
        kws = {kk: v for kk, v in k["kws"].d.values()}
    cb = k.get("iter_cb")
    it.event("minimize", params=params, kw=k)

    def trial(tag):
        """the Parameters of a trial: a copy of those given"""
        p = EX.deep(it, params, {})
        if it.config.get("fit_symbols") and isinstance(p, ObjV) and isinstance(p.attrs.get("d"), DictV):
            for nm, q in p.attrs["d"].d.values():
                v = q.attrs.get("value")
                if isinstance(nm, str) and isinstance(v, Arr) and q.attrs.get("vary", True) is not False:
                    s = "fit:%s:%s" % (tag, nm)
                    q.attrs["value"] = Arr(Data((), sym(s), v.data.unit, frozenset({s})))
        return p
    for i in range(it.config.get("minimize_calls", 2)):
        r = it.call(fcn, [trial("x" + "'" * i)] + ex, dict(kws))
        it.event("objective", value=r)
    o = ObjV("lmfit.Result")
    o.attrs = {"params": trial("best"), "residual": TopV("residual")}
    return o


OBJATTR["lmfit.Result"] = lambda it, o, name: o.attrs.get(name, TopV("Result." + name))


@reg("lmfit.report_fit", "lmfit.fit_report", "lmfit.printfuncs.report_fit")
def lm_rep(it, a, k):
    return None


# ------------------------------------------------------------------ multiprocessing
@reg("multiprocessing.Value", "multiprocessing.sharedctypes.Value")
def mp_value(it, a, k):
    o = ObjV("mp.Value")
    o.attrs["value"] = a[1] if len(a) > 1 else 0
    own = k.get("lock", True)
    if own is False:
        o.attrs["lock"] = None
        return o
    lk = own if isinstance(own, ObjV) else ObjV("mp.Lock")
    lk.attrs["of"] = o
    o.attrs["lock"] = lk
    return o


@reg("multiprocessing.RawValue", "multiprocessing.sharedctypes.RawValue")
def mp_rawvalue(it, a, k):
    return mp_value(it, a, {"lock": False})


@reg("multiprocessing.Lock", "multiprocessing.RLock", "threading.Lock", "threading.RLock")
def mp_lock(it, a, k):
    return ObjV("mp.Lock")


def val_attr(it, o, name):
    if name == "value":
        it.event("shared-read", obj=o, locks=list(it.locks))
        return o.attrs["value"]
    if o.attrs["lock"] is None and name in ("get_lock", "get_obj", "acquire", "release"):
        return MISSING()      # a raw shared value has no lock
    if name == "get_lock":
        return py(lambda i2, a, k: o.attrs["lock"], "get_lock")
    if name == "acquire" or name == "release":
        return lock_attr(it, o.attrs["lock"], name)
    return TopV("mp.Value." + name)


def val_set(it, o, name, v):
    if name == "value":
        it.event("shared-write", obj=o, locks=list(it.locks))
    o.attrs[name] = v


OBJATTR["mp.Value"] = val_attr
SETATTR["mp.Value"] = val_set


def lock_attr(it, o, name):
    if name == "acquire":
        def acq(i2, a, k):
            i2.locks.append(o)
            return True
        return py(acq, "acquire")
    if name == "release":
        def rel(i2, a, k):
            if o in i2.locks:
                i2.locks.remove(o)
        return py(rel, "release")
    return TopV("Lock." + name)


OBJATTR["mp.Lock"] = lock_attr


def lock_enter(it, cm):
    it.locks.append(cm)
    return cm


def lock_exit(it, cm):
    if cm in it.locks:
        it.locks.remove(cm)


ENTER["mp.Lock"] = lock_enter
EXIT["mp.Lock"] = lock_exit
ENTER["mp.Value"] = lambda it, cm: lock_enter(it, cm.attrs["lock"])
EXIT["mp.Value"] = lambda it, cm: lock_exit(it, cm.attrs["lock"])


def namespaces(it):
    return {n: dict(m.ns) for n, m in it.modules.items()}


def in_worker(it, pool, f, a):
    """call f in another process: on copies of the arguments and of the object
    it is bound to, with the global variables the initializer made there"""
    import values
    if isinstance(f, values.BoundV):
        f = values.BoundV(EX.deep(it, f.obj, {}), f.func)
    elif f is None:
        return None
    here = namespaces(it)
    for n, ns in (pool.attrs["globals"] if pool is not None else {}).items():
        it.modules[n].ns.update(ns)
    try:
        return it.call(f, list(a), {})
    finally:
        there = namespaces(it)
        if pool is not None:
            g = pool.attrs["globals"]
            for n, ns in there.items():
                for q, v in ns.items():
                    if n in here and (q not in here[n] or here[n][q] is not v):
                        g.setdefault(n, {})[q] = v
        for n, ns in here.items():
            it.modules[n].ns.clear()
            it.modules[n].ns.update(ns)


@reg("multiprocessing.Pool", "multiprocessing.pool.Pool")
def mp_pool(it, a, k):
    o = ObjV("mp.Pool")
    o.attrs["globals"] = {}
    ia = arg(a, k, 2, "initargs", ())
    it.event("pool-open", obj=o, processes=arg(a, k, 0, "processes"), initializer=arg(a, k, 1, "initializer"), initargs=ia)
    init = arg(a, k, 1, "initializer")
    if init is not None:
        in_worker(it, o, init, list(it.iterate(ia)))
    return o


def pool_attr(it, o, name):
    if name in ("terminate", "close"):
        def t(i2, a, k):
            i2.event("pool-" + name, obj=o)
        return py(t, "Pool." + name)
    if name == "join":
        return py(lambda i2, a, k: None, "Pool.join")
    if name in ("map", "imap", "imap_unordered", "starmap"):
        def m(i2, a, k):
            return ListV([in_worker(i2, o, a[0], list(i2.iterate(x)) if name == "starmap" else [x])
                          for x in i2.iterate(a[1])])
        m = py(m, "Pool." + name)
        m.pool = o
        return m
    return TopV("Pool." + name)


OBJATTR["mp.Pool"] = pool_attr


def pool_exit(it, cm):
    it.event("pool-terminate", obj=cm)


ENTER["mp.Pool"] = lambda it, cm: cm
EXIT["mp.Pool"] = pool_exit


@reg("multiprocessing.cpu_count", "os.cpu_count", "psutil.cpu_count")
def cpu(it, a, k):
    n = it.fresh("ncpu")
    return Arr(Data((), sym(n, pos=True), LIT, frozenset({"host:cpu_count"}), None, "i"))


@reg("scipy.optimize.differential_evolution", "scipy.optimize.minimize", "scipy.optimize.dual_annealing",
     "scipy.optimize.basinhopping")
def sp_de(it, a, k):
    f, bounds = arg(a, k, 0, "func", k.get("fun")), arg(a, k, 1, "bounds")
    ex = k.get("args", ())
    ex = list(it.iterate(ex)) if isinstance(ex, (tuple, ListV)) else []
    nb = len(it.iterate(bounds)) if isinstance(bounds, (ListV, tuple)) else None
    it.event("optimizer", bounds=bounds, kw=k)
    if it.config.get("optimizer_raises"):
        raise AbsExc("KeyboardInterrupt", "interrupted optimizer", it.loc())

    def vec(tag):
        if nb is None:
            return Arr(Data(((app("dim?bounds", ONE),),), None, None, frozenset({"fit:x"})))
        items = [sym("fit:%s%d" % (tag, i)) for i in range(nb)]
        return Arr(Data(((nb,),), selp(ix(0), tuple(items)) if items else ZERO, LIT,
                        frozenset("fit:%s%d" % (tag, i) for i in range(nb))))
    w = k.get("workers")
    pool = getattr(w, "pool", None)
    far = pool is not None or isinstance(w, int) and w != 1
    for i in range(it.config.get("minimize_calls", 2)):
        x = vec("x" + "'" * i)
        r = in_worker(it, pool, f, [x] + ex) if far else it.call(f, [x] + ex, {})
        it.event("objective", value=r)
    cb = k.get("callback")
    if cb is not None:
        it.call(cb, [vec("c")], {"convergence": num_arr(it)} if not k.get("_nocv") else {})
    o = ObjV("OptimizeResult")
    o.attrs = {"x": vec("best"), "fun": Arr(Data((), sym("fit:fun"), None))}
    return o


def num_arr(it):
    return Arr(Data((), sym("convergence", pos=True), DLESS))


OBJATTR["OptimizeResult"] = lambda it, o, name: o.attrs.get(name, TopV("OptimizeResult." + name))


# ------------------------------------------------------------------ files / json
def skey(it, p):
    if isinstance(p, str):
        return p
    if isinstance(p, StrV):
        return "".join(s if isinstance(s, str) else "<%s>" % (s,) for s in p.segs)
    return repr(p)


@reg("json.dump")
def js_dump(it, a, k):
    f = a[1]
    path = f.attrs.get("path") if isinstance(f, ObjV) else None
    it.fs[skey(it, path)] = jsonify(it, a[0])
    it.event("json-dump", path=path)


@reg("json.dumps")
def js_dumps(it, a, k):
    o = ObjV("jsontext")
    o.attrs["v"] = jsonify(it, a[0])
    return o


def jsonify(it, v):
    if isinstance(v, DictV):
        d = DictV(v.exact)
        for kk, (ko, x) in v.d.items():
            n = ko if isinstance(ko, (str, StrV)) else it.mkstr(it.format_segs(ko, ""), it.deps(ko))
            if not isinstance(ko, (str, StrV, int, float, bool, Fraction, TopV)) and not (
                    isinstance(ko, Arr) and ko.data.shape == ()):
                it.event("json-type", what=repr(ko)[:60])
            d.d[it.keyof(n)] = (n, jsonify(it, x))
        return d
    if isinstance(v, (ListV, tuple)):
        return ListV([jsonify(it, x) for x in it.iterate(v)])
    if isinstance(v, Arr):
        if v.data.shape is not None and v.data.shape != ():
            it.event("json-type", what="ndarray")
            raise AbsExc("TypeError", "ndarray is not JSON serializable", it.loc())
        if v.data.dtype == "i" and v.data.term is not None and v.data.term.const() is not None:
            # plain integers are Python ints here: this one comes out of an integer array
            it.event("json-type", what="numpy integer")
            raise AbsExc("TypeError", "Object of type int64 is not JSON serializable", it.loc())
        return Arr(v.data)
    if isinstance(v, ObjV) or isinstance(v, (FuncV, ClassV)):
        it.event("json-type", what=repr(v)[:60])
        raise AbsExc("TypeError", "object is not JSON serializable", it.loc())
    return v


@reg("json.load")
def js_load(it, a, k):
    f = a[0]
    path = f.attrs.get("path") if isinstance(f, ObjV) else None
    it.event("json-load", path=path)
    r = it.fs.get(skey(it, path))
    if r is None:
        return TopV("json")
    return EX.deep(it, r, {})


@reg("json.loads")
def js_loads(it, a, k):
    if isinstance(a[0], ObjV) and a[0].cls == "jsontext":
        return EX.deep(it, a[0].attrs["v"], {})
    return TopV("json")


def file_attr(it, o, name):
    if name == "write":
        def w(i2, a, k):
            i2.event("file-write", path=o.attrs.get("path"), value=a[0])
        return py(w, "write")
    if name in ("close", "flush"):
        return py(lambda i2, a, k: None, name)
    if name == "name":
        return o.attrs.get("path")
    return TopV("file." + name)


OBJATTR["file"] = file_attr


@reg("os.path.join")
def os_join(it, a, k):
    segs = []
    deps = it.deps(tuple(a))
    for i, x in enumerate(a):
        if x is None:
            it.event("none-deref", what="os.path.join")
            raise AbsExc("TypeError", "os.path.join(None)", it.loc())
        s = list(it.segs(x))
        if i and segs:
            if isinstance(x, str) and x.startswith("/"):
                segs = []
            elif all(isinstance(q, str) for q in segs):
                j = "".join(segs)
                if j and not j.endswith("/"):
                    segs.append("/")
            elif not (isinstance(segs[-1], str) and segs[-1].endswith("/")):
                segs.append("/")
        segs += s
    return it.mkstr(segs, deps)


@reg("os.path.exists", "os.path.isfile", "os.path.isdir")
def os_exists(it, a, k):
    return TopV("exists")


@reg("os.makedirs", "os.mkdir")
def os_mk(it, a, k):
    it.event("open", path=a[0], mode="dir")


@reg("os.getcwd")
def os_cwd(it, a, k):
    return TopV("cwd", frozenset({"nondet:cwd"}))


@reg("os.path.basename")
def os_base(it, a, k):
    if isinstance(a[0], str):
        return a[0].split("/")[-1]
    return TopV("basename", it.deps(a[0]))


@reg("matplotlib.backends.backend_pdf.PdfPages")
def pdfpages(it, a, k):
    it.event("open", path=a[0], mode="wb")
    o = ObjV("pdf")
    o.attrs["path"] = a[0]
    return o


OBJATTR["pdf"] = lambda it, o, name: TopV("pdf." + name)
ENTER["pdf"] = lambda it, cm: cm
EXIT["pdf"] = lambda it, cm: None


for _n in ("time", "perf_counter", "process_time", "monotonic", "strftime", "ctime", "time_ns"):
    def _f(it, a, k, _n=_n):
        return TopV("time." + _n, frozenset({"nondet:time." + _n}))
    CALLS["time." + _n] = _f
CALLS["time.sleep"] = lambda it, a, k: None
