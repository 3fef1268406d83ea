"""Whole-package rules: every operation is executable, results depend on settings only."""
import ast
import builtins
import glob
import os
import re

from registry import check
from scen import *
from util import *
from summ import SUMM, SUMM_T
from spec import ref, val
from rules_state import brief, BFILE, CFILE, admr, seq_contours
from rules_hist import class_methods, multi_fit, one_fit, evaluate_fit
from rules_phys import bobj, model_names, AFILE, SFILE
import rules_fit
from rules_fit import FFILE
import terms as T

REPO = os.environ.get("SA_REPO", "/repo")
PKG = "cuprates_transport"
SITE = sorted(glob.glob("/opt/venv/lib/python3*/site-packages"))
FAIL = ("undefined-name", "no-attr", "call-mismatch", "unbound-local", "key-missing", "unpack-mismatch", "shape-mismatch", "index-range", "index-rank",
        "none-deref", "type-error", "ambiguous-truth", "import-missing", "lambda-unbound", "readonly-property", "module-exception")


# ------------------------------------------------------------------ sources
def modules(extra=()):
    out = {}
    for f in sorted(glob.glob(os.path.join(REPO, PKG, "**", "*.py"), recursive=True)) + list(extra):
        with open(f, encoding="utf-8") as fh:
            src = fh.read()
        rel = os.path.relpath(f, REPO)
        try:
            out[rel] = ast.parse(src)
        except SyntaxError as e:
            out[rel] = e
    return out


FN = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


def bound_here(fn):
    """names bound in a function or module body, nested scopes excluded; (names, globals, nonlocals)"""
    names, glb, nl = set(), set(), set()
    star = []

    def args(a):
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            names.add(x.arg)
        for x in (a.vararg, a.kwarg):
            if x:
                names.add(x.arg)

    def walk(n, top=False):
        if isinstance(n, FN) and not top:
            if not isinstance(n, ast.Lambda):
                names.add(n.name)
            return
        if isinstance(n, ast.ClassDef) and not top:
            names.add(n.name)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:      # a walrus binds outside
                walk(g.iter)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, ast.Global):
            glb.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nl.update(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                if a.name == "*":
                    star.append(n)
                else:
                    names.add((a.asname or a.name).split(".")[0])
        elif type(n).__name__ in ("MatchAs", "MatchStar") and n.name:
            names.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)
    if isinstance(fn, FN):
        args(fn.args)
        for s in (fn.body if isinstance(fn.body, list) else [fn.body]):
            walk(s)
    else:
        for s in fn.body:
            walk(s)
    return names - glb - nl, glb, star


BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__path__", "__annotations__", "__class__"}


def undefined(tree):
    """(name, line, function) of the names no scope binds"""
    gl, _, star = bound_here(tree)
    if star:
        return None
    for n in ast.walk(tree):
        if isinstance(n, ast.Global):
            gl |= set(n.names)
    out = []

    def visit(n, scopes, fname):
        if isinstance(n, FN):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                visit(d, scopes, fname)
            if not isinstance(n, ast.Lambda):
                for d in n.decorator_list:
                    visit(d, scopes, fname)
            names, _, _ = bound_here(n)
            sc = [s for s in scopes if s[0] != "class"] + [("f", names)]
            nm = fname if isinstance(n, ast.Lambda) else n.name
            for s in (n.body if isinstance(n.body, list) else [n.body]):
                visit(s, sc, nm)
            return
        if isinstance(n, ast.ClassDef):
            for d in n.bases + [k.value for k in n.keywords] + n.decorator_list:
                visit(d, scopes, fname)
            names, _, _ = bound_here(n)
            for s in n.body:
                visit(s, scopes + [("class", names)], fname)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            names = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            visit(n.generators[0].iter, scopes, fname)
            sc = scopes + [("f", names)]
            for i, g in enumerate(n.generators):
                if i:
                    visit(g.iter, sc, fname)
                for c in g.ifs:
                    visit(c, sc, fname)
            for c in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                visit(c, sc, fname)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            if n.id not in BUILTINS and n.id not in gl and not any(n.id in s[1] for s in scopes):
                out.append((n.id, n.lineno, fname))
        for c in ast.iter_child_nodes(n):
            visit(c, scopes, fname)
    for s in tree.body:
        visit(s, [], "<module>")
    return out


# ------------------------------------------------------------------ definite assignment
class Flow:
    """definite assignment over the structured control flow of a function.
    A loop is taken to run at least once; a condition written twice takes the same value twice."""

    def __init__(self, fn):
        self.fn = fn
        self.locals, _, _ = bound_here(fn)
        self.bad = []
        a = fn.args
        self.parent = {id(c): n for n in ast.walk(fn) for c in ast.iter_child_nodes(n)}
        self.words = {}
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}

    def run(self):
        self.block(self.fn.body, [({}, frozenset(self.params))])
        return self.bad

    # a state: (known condition texts -> bool, assigned names); a handful are kept apart
    def merge(self, sts):
        out, seen = [], set()
        for c, a in sts:
            k = (tuple(sorted(c.items())), a)
            if k not in seen:
                seen.add(k)
                out.append((c, a))
        if len(out) > 64:
            a = out[0][1]
            for _, x in out[1:]:
                a &= x
            c = {k: v for k, v in out[0][0].items() if all(o[0].get(k) == v for o in out)}
            return [(c, a)]
        return out

    def use(self, e, sts):
        if e is None:
            return
        stack = [e]
        while stack:
            n = stack.pop()
            if isinstance(n, FN) or isinstance(n, ast.ClassDef):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                stack.append(n.generators[0].iter)
                continue
            if isinstance(n, ast.NamedExpr):
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.locals:
                if sts and not any(n.id in a for _, a in sts):
                    self.bad.append((n.id, n.lineno, True))
                elif sts and not all(n.id in a for _, a in sts):
                    self.bad.append((n.id, n.lineno, False))
            stack.extend(ast.iter_child_nodes(n))

    def bind(self, t, sts):
        names = {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        return self.kill([(c, a | names) for c, a in sts], names)

    def kill(self, sts, names):
        """conditions that mention an assigned name are forgotten"""
        return [({k: v for k, v in c.items() if not (names & self.words.get(k, set()))}, a) for c, a in sts]

    def split(self, test, sts):
        k = ast.unparse(test)
        neg = False
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            k, neg = ast.unparse(test.operand), True
        if isinstance(test, ast.Constant):
            b = bool(test.value)
            return (sts, []) if b else ([], sts)
        self.words[k] = {x.id for x in ast.walk(test) if isinstance(x, ast.Name)} | {x.attr for x in ast.walk(test) if isinstance(x, ast.Attribute)}
        yes, no = [], []
        for c, a in sts:
            v = c.get(k)
            if v is None or v is (not neg):
                yes.append((dict(c, **{k: not neg}), a))
            if v is None or v is neg:
                no.append((dict(c, **{k: neg}), a))
        return yes, no

    def block(self, body, sts):
        """states at the end; the loop exits are collected in self.brk"""
        for s in body:
            if not sts:
                return []
            sts = self.stmt(s, sts)
        return sts

    def stmt(self, s, sts):
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            self.use(s.value, sts)
            if isinstance(s, ast.AugAssign):
                t = s.target
                self.use(ast.Name(id=t.id, ctx=ast.Load(), lineno=s.lineno) if isinstance(t, ast.Name) else t, sts)
                ts = [t]
            else:
                ts = s.targets if isinstance(s, ast.Assign) else ([s.target] if s.value else [])
            for t in ts:
                self.use(t, sts)
                sts = self.bind(t, sts)
                attrs = {x.attr for x in ast.walk(t) if isinstance(x, ast.Attribute)}
                sts = self.kill(sts, attrs)
            return self.walrus(s, sts)
        if isinstance(s, ast.If):
            self.use(s.test, sts)
            sts = self.walrus(s.test, sts)
            y, n = self.split(s.test, sts)
            if not s.orelse and self.chain(s):      # the last of a chain of alternatives for one value
                n = []
            return self.merge(self.block(s.body, y) + self.block(s.orelse, n))
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.use(s.iter, sts)
            old = getattr(self, "brk", None)
            self.brk, self.cnt = [], []
            end = self.block(s.body, self.bind(s.target, sts))
            end = self.merge(end + self.cnt)
            end = self.block(s.orelse, end)
            end = self.merge(end + self.brk)
            self.brk = old
            return end
        if isinstance(s, ast.While):
            self.use(s.test, sts)
            old = getattr(self, "brk", None)
            self.brk, self.cnt = [], []
            end = self.block(s.body, sts)
            forever = isinstance(s.test, ast.Constant) and s.test.value
            end = self.merge(([] if forever else end + self.cnt) + self.brk)
            self.brk = old
            return end
        if isinstance(s, ast.Try):
            before = sts
            end = self.block(s.body, sts)
            end = self.block(s.orelse, end)
            hs = []
            for h in s.handlers:
                st = before
                if h.name:
                    st = [(c, a | {h.name}) for c, a in st]
                hs += self.block(h.body, st)
            end = self.merge(end + hs)
            if s.finalbody:
                end = self.block(s.finalbody, end or before) if end else (self.block(s.finalbody, before) and [])
            return end
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.use(i.context_expr, sts)
                if i.optional_vars is not None:
                    sts = self.bind(i.optional_vars, sts)
            return self.block(s.body, sts)
        if type(s).__name__ == "Match":
            self.use(s.subject, sts)
            end = []
            for c in s.cases:
                names = {x.name for x in ast.walk(c.pattern) if getattr(x, "name", None)}
                end += self.block(c.body, [(k, a | names) for k, a in sts])
            return self.merge(end)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return [(c, a | {s.name}) for c, a in sts]
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            n = {(x.asname or x.name).split(".")[0] for x in s.names}
            return [(c, a | n) for c, a in sts]
        if isinstance(s, (ast.Return, ast.Raise)):
            for f in ("value", "exc", "cause"):
                self.use(getattr(s, f, None), sts)
            return []
        if isinstance(s, ast.Break):
            if getattr(self, "brk", None) is not None:
                self.brk += sts
            return []
        if isinstance(s, ast.Continue):
            self.cnt += sts
            return []
        if isinstance(s, ast.Delete):
            names = {t.id for t in s.targets if isinstance(t, ast.Name)}
            return [(c, a - names) for c, a in sts]
        if isinstance(s, (ast.Expr, ast.Assert)):
            self.use(s, sts)
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in ("exit", "quit"):
                return []
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func) == "sys.exit":
                return []
            return self.walrus(s, sts)
        return sts

    def chain(self, s):
        """is s the last link of 'if v == a: ... elif v == b: ...' without else"""
        def left(t):
            return ast.unparse(t.left) if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.Is, ast.In)) else None
        up = self.parent.get(id(s))
        return isinstance(up, ast.If) and up.orelse == [s] and left(s.test) is not None and left(s.test) == left(up.test)

    def single(self, name):
        """are all assignments of the name inside one if statement (or one try)"""
        tops = set()
        for n in ast.walk(self.fn):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
                top, q = None, n
                while q is not None and q is not self.fn:
                    if isinstance(q, (ast.If, ast.Try)):
                        top = q
                    if isinstance(q, FN):
                        return False
                    q = self.parent.get(id(q))
                tops.add(id(top))
        return len(tops) == 1

    def walrus(self, s, sts):
        names = {x.target.id for x in ast.walk(s) if isinstance(x, ast.NamedExpr)}
        return [(c, a | names) for c, a in sts] if names else sts


# ------------------------------------------------------------------ classes
class Table:
    def __init__(self, trees):
        self.classes, self.funcs = {}, {}
        for f, t in trees.items():
            if not isinstance(t, ast.Module):
                continue
            for s in t.body:
                if isinstance(s, ast.ClassDef):
                    self.classes.setdefault(s.name, []).append((f, s))
                elif isinstance(s, ast.FunctionDef):
                    self.funcs[(f, s.name)] = s
        self.imports = {f: self.imp(t) for f, t in trees.items() if isinstance(t, ast.Module)}

    def imp(self, t):
        d = {}
        for n in ast.walk(t):
            if isinstance(n, ast.ImportFrom) and n.module and n.module.split(".")[0] == PKG:
                for a in n.names:
                    d[a.asname or a.name] = (n.module.replace(".", "/") + ".py", a.name)
        return d

    def find(self, f, name):
        """class of that name visible in file f"""
        if f in self.imports and name in self.imports[f]:
            f, name = self.imports[f][name]
        for g, c in self.classes.get(name, ()):
            if g == f:
                return g, c
        return None

    def lineage(self, f, c):
        """the class and its bases of the package; None when a base is not known"""
        out, todo = [], [(f, c)]
        while todo:
            g, k = todo.pop()
            out.append((g, k))
            for b in k.bases:
                if isinstance(b, ast.Name) and b.id == "object":
                    continue
                x = self.find(g, b.id) if isinstance(b, ast.Name) else None
                if x is None:
                    return None
                todo.append(x)
        return out

    def members(self, f, c):
        """(attributes, open): open when attributes are created under names not known statically"""
        names, op = set(dir(object)) | {"__dict__", "__class__"}, False
        lin = self.lineage(f, c)
        if lin is None:
            return names, True
        for g, k in lin:
            for s in k.body:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    names.add(s.name)
            names |= bound_here(k)[0]
            for fn in ast.walk(k):
                if not isinstance(fn, ast.FunctionDef) or not fn.args.args:
                    continue
                me = fn.args.args[0].arg
                if fn.name in ("__getattr__", "__getattribute__"):
                    op = True
                for n in ast.walk(fn):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == me:
                        names.add(n.attr)
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" or \
                            isinstance(n, ast.Attribute) and n.attr == "__dict__":
                        op = True
        return names, op


def arity(call, fn, bound):
    """message when the call cannot match the signature"""
    a = fn.args
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    names = [x.arg for x in a.posonlyargs + a.args]
    if bound:
        names = names[1:]
    nd = len(a.defaults)
    if len(call.args) > len(names) and not a.vararg:
        return "%d positional arguments for %d parameters" % (len(call.args), len(names))
    kws = {x.arg for x in a.kwonlyargs}
    given = set(names[:len(call.args)])
    for k in call.keywords:
        if k.arg in given:
            return "argument '%s' given twice" % k.arg
        if k.arg not in names and k.arg not in kws and not a.kwarg:
            return "no parameter '%s'" % k.arg
        given.add(k.arg)
    need = names[:len(names) - nd] if nd else names
    miss = [n for n in need if n not in given] + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in given]
    if miss:
        return "argument '%s' is missing" % miss[0]
    return None


# ------------------------------------------------------------------ external names
_words = {}


def ext_has(module, name):
    """True / False / None: does the installed library define the name in that module (searched as text, not imported)"""
    if not SITE:
        return None
    parts = module.split(".")
    std = None
    p = os.path.join(SITE[-1], *parts)
    files = []
    if os.path.isdir(p):
        if os.path.exists(os.path.join(p, name + ".py")) or os.path.isdir(os.path.join(p, name)):
            return True
        files = glob.glob(os.path.join(p, "*.py")) + glob.glob(os.path.join(p, "*.pyi"))
        if os.path.exists(os.path.join(p, "__init__.pyi")) and parts[0] == "numpy":
            files = [os.path.join(p, "__init__.pyi"), os.path.join(p, "__init__.py")]
    elif os.path.exists(p + ".py"):
        files = [p + ".py"]
    else:
        return None
    key = module
    if key not in _words:
        w = set()
        for f in files:
            try:
                with open(f, encoding="utf-8", errors="replace") as fh:
                    text = fh.read()
                    if len(files) == 1 and re.search(r"^(globals\(\)|def __getattr__)", text, re.M) and parts[0] != "numpy":
                        w = None # names made at import time
                        break
                    # prose (docstrings, comments) defines nothing
                    w |= set(re.findall(r"[A-Za-z_][A-Za-z_0-9]*", re.sub(r'\"\"\"(?:.|\n)*?\"\"\"|\'\'\'(?:.|\n)*?\'\'\'|#[^\n]*', " ", text)))
            except OSError:
                return None
        _words[key] = w
    return name in _words[key] if _words[key] is not None else None


def root_module(module):
    if module.split(".")[0] in STD:
        return True
    return None if not SITE else (os.path.exists(os.path.join(SITE[-1], module.split(".")[0])) or os.path.exists(os.path.join(SITE[-1], module.split(".")[0] + ".py")))


import sys as _sys
STD = set(_sys.stdlib_module_names)


# ------------------------------------------------------------------ C24
@check("C24", "Name, attribute, call and flow resolution: (1) over the syntax tree of every module of the package and every example, each name must be bound in some scope, each local assigned on every path that reaches its use, each attribute of self defined by the class or its bases, each call of a function or method of the package must match its signature, each import must exist; (2) every public method of every class is interpreted in every supported configuration (cubes or squares, tetragonal or orthorhombic, with or without field and temperature, each scattering model, several bands, every fit class) and no operation on any path may fail (missing key, mismatched shapes, None used as a value, wrong number of values, unassigned name).",
       floor=150)
def c24(r):
    ex = sorted(glob.glob(os.path.join(REPO, "examples", "*.py")))
    trees = modules()
    if len(trees) < 5:
        raise AnchorMissing("modules of the package")
    tab = Table(trees)
    for f, t in trees.items():
        if not isinstance(t, ast.Module):
            r.ob("syntax/" + f, False, "%s does not compile: %s" % (f, t), (f, t.lineno or 0, "<module>"))
            continue
        lint_file(r, tab, f, t)

    # ---- interpretation of every public operation
    def fails(it, k, cut=0):
        caught = {e["where"] for e in it.events if e["kind"] == "caught"}
        n = 0
        for e in it.events[cut:]:
            if e["kind"] not in FAIL or "spec" in str(e["loc"][0]) or e["loc"] in caught:
                continue
            n += 1
            info = {a: b for a, b in e.items() if a not in ("kind", "loc", "stack")}
            r.ob("%s@%s" % (e["kind"], e["loc"][2]), False, "%s fails: %s %s" % (k, e["kind"], brief(str(info))), e["loc"])
        if not n:
            r.ob("runs/" + k, True)

    ARGS = {"get_band_param": lambda: ["t"], "set_band_param": lambda: ["t", S("newt", DLESS)],
            "energy_func": lambda: [karr(i) for i in range(3)], "velocity_func": lambda: [karr(i) for i in range(3)],
            "dispersion_grid": lambda: [L(11, 12, 13)], "diff_doping": lambda: [S("mu1", DLESS), S("p1", DLESS)], "set_mu_to_doping": lambda: [S("p1", DLESS)],
            "rotation": lambda: [karr(0), karr(1), S("angle", unit(deg=1))], "energyCutOff": lambda: [S("cutarg", unit(meV=-1), True)], "dfdE": lambda: [S("eps1", UE)],
            "tau_tot_func": lambda: [karr(i) for i in range(3)] + [varr(i) for i in range(3)], "phi_func": lambda: [karr(i) for i in range(3)],
            "gamma_dos_func": lambda: [varr(i) for i in range(3)]}
    for m in model_names():
        ARGS.setdefault(m, lambda: [karr(i) for i in range(3)])
    SKIP = {"movement_equation", "velocity_product", "sigma_epsilon", "integrand_coeff", "crossProductVectorized", "marching_cube", "marching_square", "mass_func"}

    def karr(i):
        return Arr(Data(((7,),), app("karg%d" % i, ix(0)), unit(Ang=-1), frozenset(["karg"])))

    def varr(i):
        return Arr(Data(((7,),), app("varg%d" % i, ix(0)), unit(m=1, s=-1), frozenset(["varg"])))

    def operations(o):
        return [n for n in class_methods(o, ("",)) if not n.startswith("_")]

    RERUN = {"BandStructure": "runBandStructure", "Conductivity": "runTransport"}

    def ops_of(it, o, who, skip=()):
        for n in operations(o):
            if n in SKIP or n in skip:
                continue
            a = ARGS.get(n, list)()
            cut = len(it.events)
            f = it.getattr(o, n)
            if not isinstance(f, BoundV) or len(f.func.node.args.args) - 1 - len(f.func.node.args.defaults) > len(a):
                r.note("not called: %s.%s (arguments unknown)" % (who, n))
                continue
            try:
                it.call(f, a, {})
            except AbsExc as e:
                if e.definite is False:
                    r.ob("runs/%s.%s" % (who, n), None, str(e))
                else:
                    r.ob("raises %s@%s.%s" % (e.name, who.split(" ")[0], n), False, "%s.%s raises %s (%s)" % (who, n, e.name, e.msg), e.loc)
                continue
            fails(it, "%s.%s" % (who, n), cut)
            if o.cls.name == "BandStructure":
                it.call(it.getattr(o, "runBandStructure"), [], {})

    def bs(it, march, ortho, model, params):
        b = band(it, march, ortho, model=model, params=params)
        k = "BandStructure (%s, %s%s)" % ("squares" if march else "cubes", "orthorhombic" if ortho else "tetragonal", ", 2D" if model == MODEL2 else "")
        fails(it, k + ".runBandStructure")
        ops_of(it, b, k)
        if march:
            c = len(it.events)
            it.call(it.getattr(b, "mass_func"), [], {})
            fails(it, k + ".mass_func", c)
        for kw in ({"epsilon": S("eps0", UE)}, {"printDoping": True}):
            c = len(it.events)
            it.call(it.getattr(b, "runBandStructure"), [], kw)
            fails(it, k + ".runBandStructure%s" % sorted(kw), c)
    for march in (False, True):
        for ortho in (True, False):
            for model, params in ((MODEL3, None), (MODEL2, PARAMS2)):
                r.scenario("band %s %s %s" % (march, ortho, model == MODEL2), lambda it, a=(march, ortho, model, params): bs(it, *a))

    # slices of the zone without any contour, or with several
    def slices(it, pat, ortho):
        it.config["contours"] = seq_contours(pat)
        b = band(it, True, ortho)
        k = "BandStructure with %s contours per slice" % (pat,)
        fails(it, k + ".runBandStructure")
        c = len(it.events)
        for n in ("dos_epsilon_func", "mass_func", "doping", "figDiscretizeFS2D"):
            if any(n in x.ns for x in b.cls.mro()):
                it.call(it.getattr(b, n), [], {})
        fails(it, k, c)
        t = cond(it, b)
        c = len(it.events)
        it.call(it.getattr(t, "runTransport"), [], {})
        fails(it, "Conductivity with %s contours per slice" % (pat,), c)
    for pat in ((0, 1, 2), (1, 0, 3), (2, 1, 0), (0, 0, 1)):
        for ortho in (True, False):
            r.scenario("slices %s %s" % (pat, ortho), lambda it, a=(pat, ortho): slices(it, *a))

    def co(it, march, B, fin, models):
        c = cond(it, band(it, march), B, fin, models=models)
        k = "Conductivity (%s%s%s%s)" % ("squares" if march else "cubes", "" if B else ", no field", ", finite T" if fin else "", ", " + "+".join(models) if models != SC_MODELS else "")
        it.call(it.getattr(c, "runTransport"), [], {})
        fails(it, k + ".runTransport")
        ops_of(it, c, k, (() if fin else ("figdfdE",)) + (() if B else ("figCumulativevft",)))
    for march in (False, True):
        for B in (True, False):
            for fin in (False, True):
                r.scenario("cond %s %s %s" % (march, B, fin), lambda it, a=(march, B, fin, SC_MODELS): co(it, *a))
    for m in model_names():
        r.scenario("cond " + m, lambda it, m=m: co(it, True, True, False, (m,)))

    def sweeps(it, n, progress):
        o = admr(it, [cond(it, band(it, tag="_%d" % i), tag="_%d" % i) for i in range(n)], show_progress=progress)
        k = "ADMR (%d bands%s)" % (n, ", progress shown" if progress else "")
        it.call(it.getattr(o, "runADMR"), [], {})
        fails(it, k + ".runADMR")
        ops_of(it, o, k)
        for kw in ({"fig_show": False, "fig_save": False}, {"folder": "F", "filename": "x.pdf"}):
            c = len(it.events)
            it.call(it.getattr(o, "figADMR"), [], kw)
            fails(it, k + ".figADMR%s" % sorted(kw), c)
        d = it.need("bandstructure", "doping")
        s = it.need("bandstructure", "set_mu_to_doping")
        bl = L(*[band(it, tag="_%d" % i) for i in range(n)])
        c = len(it.events)
        it.call(d, [bl], {"printDoping": True})
        it.call(s, [bl, S("ptarget", DLESS)], {})
        fails(it, "doping and chemical potential of %d bands" % n, c)
    for n in (1, 2):
        for p in (False, True):
            r.scenario("sweep %d %s" % (n, p), lambda it, a=(n, p): sweeps(it, *a), hooks=SUMM)

    def fits(it, which, normalized, empty):
        it.config["fit_symbols"] = True
        k = "%s fit%s" % (which, "" if normalized else " of absolute data")
        if which == "series multi":
            fit, _, _ = rules_fit.series_multi(it, {"mu": "common", "Bamp": "dict"}, normalized_data=normalized)
        elif which == "multi":
            fit, n, _, _, _ = rules_fit.multi_case(it, (25, 12), (0, 15, 45), ("b1", "b2"), [("all", "b1", "mu"), (25, "b2", "gamma_0"), ("all", "b1", "Bamp")], normalized)
        else:
            fit, _ = one_fit(it, which, ("gamma_0", "mu", "Bamp"), normalized_data=normalized)
        evalf = {"multi": ("compute_fitness", lambda: [rules_fit.vec(3)]), "parallel": ("compute_diff2", lambda: [rules_fit.vec(3)])}.get(which, ("compute_diff", lambda: [it.getattr(fit, "pars")]))
        it.call(it.getattr(fit, evalf[0]), evalf[1](), {})
        fails(it, k + "." + evalf[0])
        ARGS.update({"compute_fitness": lambda: [], "compute_diff": evalf[1], "compute_diff2": evalf[1]})
        ops_of(it, fit, k, ("load_member_from_json", "compute_diff") if which == "parallel" else ("load_member_from_json",))
        c = len(it.events)
        it.call(it.getattr(fit, "fig_compare"), [], {"fig_show": False, "fig_save": True})
        fails(it, k + ".fig_compare", c)
    for which in ("multi", "parallel", "series", "series multi"):
        for normalized in (True, False):
            r.scenario("fit %s %s" % (which, normalized), lambda it, a=(which, normalized, False): fits(it, *a), hooks=SUMM)

    # the documented usage: the examples
    def example(it, f):
        with open(f, encoding="utf-8") as fh:
            src = fh.read()
        rel = os.path.relpath(f, REPO)
        it.src[rel] = (rel, src, ast.parse(src))
        it.load(rel)
        fails(it, rel)
    for f in ex:
        r.scenario(os.path.basename(f), lambda it, f=f: example(it, f), hooks=SUMM_T, must_run=False)


def lint_file(r, tab, f, t):
    short = os.path.basename(f)
    und = undefined(t)
    if und is None:
        r.ob("names/" + short, None, "star import")
    else:
        for n, line, fn in und:
            r.ob("name %s/%s" % (n, short), False, "the name '%s' is not defined anywhere" % n, (f, line, fn))
        r.ob("names/" + short, True)
    for fn in ast.walk(t):
        if isinstance(fn, ast.FunctionDef):
            bad = Flow(fn).run()
            r.ob("assigned/%s:%s" % (short, fn.name), True)
            fl = Flow(fn)
            for n, line, always in bad:
                r.ob("assigned %s/%s:%s" % (n, short, fn.name), False if always or fl.single(n) else None, "the local '%s' is %s assigned when it is used" % (n, "never" if always else "on some path not"), (f, line, fn.name))
    # imports and attributes of modules
    alias = {}
    for n in ast.walk(t):
        if isinstance(n, ast.Import):
            for a in n.names:
                alias[(a.asname or a.name).split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
                r.ob("import %s/%s" % (a.name, short), root_module(a.name), "the module '%s' does not exist" % a.name, (f, n.lineno, "<module>"))
        elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
            if n.module.split(".")[0] == PKG:
                g = n.module.replace(".", "/") + ".py"
                tree = tab.imports.get(g) is not None
                pk = os.path.isdir(os.path.join(REPO, n.module.replace(".", "/")))
                for a in n.names:
                    ok = tree and (any(x == g for x, _ in tab.classes.get(a.name, ())) or (g, a.name) in tab.funcs or a.name in TOPN(g)) or \
                        pk and os.path.exists(os.path.join(REPO, n.module.replace(".", "/"), a.name + ".py"))
                    r.ob("import %s.%s/%s" % (n.module, a.name, short), bool(ok), "'%s' does not define '%s'" % (n.module, a.name), (f, n.lineno, "<module>"))
            else:
                for a in n.names:
                    if n.module.split(".")[0] in STD:
                        continue
                    r.ob("import %s.%s/%s" % (n.module, a.name, short), True if root_module(n.module) and ext_has(n.module, a.name) is None else ext_has(n.module, a.name), "'%s' does not define '%s'" % (n.module, a.name), (f, n.lineno, "<module>"))
    for n in ast.walk(t):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id in alias and alias[n.value.id].split(".")[0] not in STD:
            m = alias[n.value.id]
            ok = ext_has(m, n.attr)
            if ok is not None:
                r.ob("external %s.%s/%s" % (m, n.attr, short), ok, "the library '%s' does not define '%s'" % (m, n.attr), (f, n.lineno, "?"))
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name) and n.value.value.id in alias and alias[n.value.value.id].split(".")[0] not in STD:
            m = alias[n.value.value.id] + "." + n.value.attr # a submodule, e.g. mpl.colors.Normalize
            ok = ext_has(m, n.attr)
            if ok is not None:
                r.ob("external %s.%s/%s" % (m, n.attr, short), ok, "the library '%s' does not define '%s'" % (m, n.attr), (f, n.lineno, "?"))
    # attributes and calls
    for c in [s for s in t.body if isinstance(s, ast.ClassDef)]:
        names, op = tab.members(f, c)
        lin = tab.lineage(f, c) or [(f, c)]
        methods = {}
        for g, k in lin[::-1]:
            for s in k.body:
                if isinstance(s, ast.FunctionDef):
                    methods[s.name] = s
        for fn in [x for x in c.body if isinstance(x, ast.FunctionDef)]:
            if not fn.args.args or any(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod") for d in fn.decorator_list):
                continue
            me = fn.args.args[0].arg
            for n in ast.walk(fn):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == me:
                    r.ob("attribute %s.%s" % (c.name, n.attr), True if n.attr in names or op else False, "'%s' objects have no attribute '%s'" % (c.name, n.attr), (f, n.lineno, fn.name))
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == me and n.func.attr in methods and not methods[n.func.attr].decorator_list:
                    why = arity(n, methods[n.func.attr], True)
                    r.ob("call %s.%s/%s:%s" % (c.name, n.func.attr, short, fn.name), why is None, "call of '%s': %s" % (n.func.attr, why), (f, n.lineno, fn.name))
    fs = {nm: fn for (g, nm), fn in tab.funcs.items() if g == f}
    for nm, (g, orig) in tab.imports[f].items():
        if (g, orig) in tab.funcs:
            fs[nm] = tab.funcs[(g, orig)]
    cls = {s.name: (f, s) for s in t.body if isinstance(s, ast.ClassDef)}
    for nm in tab.imports[f]:
        x = tab.find(f, nm)
        if x:
            cls[nm] = x
    for n in ast.walk(t):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            if n.func.id in fs and not fs[n.func.id].decorator_list:
                why = arity(n, fs[n.func.id], False)
                r.ob("call %s/%s" % (n.func.id, short), why is None, "call of '%s': %s" % (n.func.id, why), (f, n.lineno, "?"))
            elif n.func.id in cls:
                g, k = cls[n.func.id]
                ini = None
                for _, q in tab.lineage(g, k) or []:
                    ini = next((s for s in q.body if isinstance(s, ast.FunctionDef) and s.name == "__init__"), None)
                    if ini:
                        break
                if ini is not None:
                    why = arity(n, ini, True)
                    r.ob("call %s/%s" % (n.func.id, short), why is None, "construction of '%s': %s" % (n.func.id, why), (f, n.lineno, "?"))


_top = {}


def TOPN(g):
    if g not in _top:
        with open(os.path.join(REPO, g), encoding="utf-8") as fh:
            _top[g] = bound_here(ast.parse(fh.read()))[0]
    return _top[g]


# ------------------------------------------------------------------ C28
BAND_RES = ("kf", "vf", "dkf", "dks", "dkz", "dos_k", "dos_epsilon", "mass", "n", "p", "number_of_points_per_kz_list")
COND_RES = ("sigma", "alpha", "beta", "kft", "vft", "t_o_tau", "time_array", "dtime", "time_max", "gamma_tot_max", "gamma_tot_min", "epsilon_array", "B_vector")


def nondet(v, seen=None):
    """sources of nondeterminism a value depends on"""
    seen = set() if seen is None else seen
    out = set()
    if isinstance(v, (ListV, DictV, ObjV)):
        if id(v) in seen:
            return out
        seen.add(id(v))
    if isinstance(v, Arr):
        out |= {d for d in v.data.deps or () if str(d).startswith("nondet:")}
    elif isinstance(v, TopV):
        out |= {d for d in v.deps or () if str(d).startswith("nondet:")}
    elif isinstance(v, (tuple, list)):
        for x in v:
            out |= nondet(x, seen)
    elif isinstance(v, ListV):
        for x in v.items:
            out |= nondet(x, seen)
    elif isinstance(v, DictV):
        for k, x in v.d.values():
            out |= nondet(x, seen)
    elif isinstance(v, ObjV):
        for x in v.attrs.values():
            out |= nondet(x, seen)
    return out


# ------------------------------------------------------------------ C28
BAND_RES = ("kf", "vf", "dkf", "dks", "dkz", "dos_k", "dos_epsilon", "mass", "n", "p", "number_of_points_per_kz_list")
COND_RES = ("sigma", "alpha", "beta", "kft", "vft", "t_o_tau", "time_array", "dtime", "time_max", "gamma_tot_max", "gamma_tot_min", "epsilon_array", "B_vector")


def nondet(v, seen=None):
    """sources of nondeterminism a value depends on"""
    seen = set() if seen is None else seen
    out = set()
    if isinstance(v, (ListV, DictV, ObjV)):
        if id(v) in seen:
            return out
        seen.add(id(v))
    if isinstance(v, Arr):
        out |= {d for d in v.data.deps or () if str(d).startswith("nondet:")}
    elif isinstance(v, TopV):
        out |= {d for d in v.deps or () if str(d).startswith("nondet:")}
    elif isinstance(v, (tuple, list)):
        for x in v:
            out |= nondet(x, seen)
    elif isinstance(v, ListV):
        for x in v.items:
            out |= nondet(x, seen)
    elif isinstance(v, DictV):
        for k, x in v.d.values():
            out |= nondet(x, seen)
    elif isinstance(v, ObjV):
        for x in v.attrs.values():
            out |= nondet(x, seen)
    return out


@check("C28", "Isolation and determinism (dependence) analysis: the results of an object are compared in normal form between a process in which it is alone and a process in which other objects, each differing from it in one setting only (model, parameter names, lattice, scale, resolution, bounds, discretization, field, temperature, time steps, scattering models and rates, another band), were built and run before it, or between its construction and its run; and no result may depend on time, random numbers, the environment or object identities.",
       floor=60)
def c28(r):
    from core import Interp as _I

    def twin(it, hooks=None):
        """another process in which the same conditions on the inputs hold"""
        import terms as T
        import ops
        known, odd = list(T.ASSUMED), ops.ODD.copy()
        x = _I(hooks=hooks)
        T.ASSUMED[:] = known        # a new interpreter forgets them
        ops.ODD.update(odd)
        x.decided, x.trace, x.script = it.decided, it.trace, it.script
        x.assume = it.assume
        x.config.update(it.config)
        return x

    def picture(it, o, names):
        return {n: snap(attr(it, o, n)) for n in names if attr(it, o, n) is not None}

    def compare(k, it, o, names, want, where):
        for n in names:
            v = attr(it, o, n)
            src = nondet(v)
            r.ob("deterministic/%s.%s" % (k, n), not src, "'%s' depends on %s" % (n, ", ".join(sorted(str(x)[7:] for x in src))), writer(o, n, where))
            if n in want:
                res, p = same(want[n], snap(v))
                r.ob("isolated/%s.%s" % (k, n), res, "'%s%s' depends on other objects of the process" % (n, p), writer(o, n, where))

    # variants of a band: everything equal to the target but one setting
    BV = {"a": lambda: dict(a=S("a_o", UA, True)), "b": lambda: dict(b=S("b_o", UA, True)), "c": lambda: dict(c=S("c_o", UA, True)), "energy scale": lambda: dict(energy_scale=S("E_o", UE, True)),
          "model": lambda: dict(band_model="-mu-t*(cos(a*kx)+2*cos(b*ky))-tp*cos(c*kz)-tz*cos(a*kx)"),
          "mu": lambda: dict(band_params=D(**{k: S(k + ("_o" if k == "mu" else ""), DLESS) for k in PARAMS3})),
          "tz": lambda: dict(band_params=D(**{k: S(k + ("_o" if k == "tz" else ""), DLESS) for k in PARAMS3})),
          "names": lambda: dict(band_params=D(**{k: S(k, DLESS) for k in PARAMS3 + ("tx",)})),
          "more names": lambda: dict(band_params=D(**{k: S(k, DLESS) for k in ("aux",) + PARAMS3})),
          "order": lambda: dict(band_params=D(**{k: S(k, DLESS) for k in PARAMS3[::-1]})),
          "swapped": lambda: dict(band_params=D(**{k: S({"t": "tp", "tp": "t"}.get(k, k), DLESS) for k in PARAMS3})),
          "terms": lambda: dict(band_model=MODEL3.replace("tz", "tq").replace("tp", "tz").replace("tq", "tp")),
          "resolution": lambda: dict(resolution=L(25, 23, 3)), "resolution z": lambda: dict(resolution=L(21, 23, 5)), "bounds": lambda: dict(k_max=L(S("kx_o", DLESS, True), S("ky_o", DLESS, True), S("kz_o", DLESS, True))),
          "zones": lambda: dict(number_of_bz=S("nbz_o", DLESS, True)), "name": lambda: dict(band_name="another"), "serial": lambda: dict(parallel=False)}

    def run_band(it, b, march):
        run(it, b, "runBandStructure")
        run(it, b, "dos_epsilon_func")
        if march:
            run(it, b, "mass_func")

    def spare(it, first):
        """bands with parameters that their model does not use"""
        k = "BandStructure (unused parameter %s)" % first
        mk = lambda i, x: band(i, False, model=MODEL2, params=PARAMS2 + (x,), tag="" if x == first else "_o")
        for x in ("aux", "kappa", "zz"):
            if x != first:
                run_band(it, mk(it, x), False)
        t = mk(it, first)
        run_band(it, t, False)
        alone = twin(it)
        b0 = mk(alone, first)
        run_band(alone, b0, False)
        e0 = D_(run(alone, b0, "energy_func", *karrs()))
        e1 = D_(run(it, t, "energy_func", *karrs()))
        r.eq("isolated/%s.energy_func" % k, e1 and e1.term, e0 and e0.term, "the dispersion depends on other objects of the process", BFILE)
        compare(k, it, t, BAND_RES, picture(alone, b0, BAND_RES), BFILE)

    def bands(it, march, when):
        k = "BandStructure (%s, others %s)" % ("squares" if march else "cubes", when)
        t = band(it, march, run=False) if when == "between" else None
        for n, f in BV.items():
            o = band(it, march, run=False, **f())
            run_band(it, o, march)
        o = band(it, not march, run=False)
        run_band(it, o, not march)
        if t is None:
            t = band(it, march, run=False)
        run_band(it, t, march)
        alone = twin(it)
        b0 = band(alone, march, run=False)
        run_band(alone, b0, march)
        e0 = D_(run(alone, b0, "energy_func", *karrs()))
        compare(k, it, t, BAND_RES, picture(alone, b0, BAND_RES), BFILE)
        e1 = D_(run(it, t, "energy_func", *karrs()))
        r.eq("isolated/%s.energy_func" % k, e1 and e1.term, e0 and e0.term, "the dispersion depends on other objects of the process", BFILE)

    def band_pairs(it, march):
        """a process with one other band, which differs in one setting: what it leaves behind has all the other settings of the target"""
        k = "BandStructure (%s, after one with another %%s)" % ("squares" if march else "cubes")
        alone = twin(it)
        b0 = band(alone, march, run=False)
        run_band(alone, b0, march)
        want = picture(alone, b0, BAND_RES)
        base = list(T.ASSUMED)
        for n, f in BV.items():
            T.ASSUMED[:] = base
            i = twin(it)
            run_band(i, band(i, march, run=False, **f()), march)
            t = band(i, march, run=False)
            run_band(i, t, march)
            compare(k % n, i, t, BAND_RES, want, BFILE)

    def karrs():
        return [Arr(Data(((7,),), app("karg%d" % i, ix(0)), unit(Ang=-1), frozenset(["karg"]))) for i in range(3)]
    for first in ("aux", "zz"):
        r.scenario("unused " + first, lambda it, f=first: spare(it, f))
    for march in (False, True):
        for when in ("before", "between"):
            r.scenario("bands %s %s" % (march, when), lambda it, a=(march, when): bands(it, *a))
        r.scenario("bands %s pairs" % march, lambda it, a=march: band_pairs(it, a), paths=1)

    CV = {"Bamp": lambda: dict(Bamp=S("B_o", UT, True)), "Bphi": lambda: dict(Bphi=S("Bphi_o", unit(deg=1))), "Btheta": lambda: dict(Btheta=S("Bth_o", unit(deg=1))),
          "N_time": lambda: dict(N_time=S("N_o", DLESS, True, "i")), "models": lambda: dict(scattering_models=L("isotropic", "sin2phi")),
          "order": lambda: dict(scattering_models=L("cos2phi")),
          "gamma_0": lambda: dict(scattering_params=D(**{n: S(n + ("_o" if n == "gamma_0" else ""), u, True) for n, u in SC_PARAMS.items()})),
          "power": lambda: dict(scattering_params=D(**{n: S(n + ("_o" if n == "power" else ""), u, True) for n, u in SC_PARAMS.items()}))}

    def variants(fin, B):
        vs = dict(CV)
        if not B:
            for n in ("Bamp", "Bphi", "Btheta"):
                vs.pop(n)
        if fin:
            vs["T"] = lambda: dict(T=S("T_o", unit(K=1), True))
            vs["cut"] = lambda: dict(dfdE_cut_percent=S("cut_o", DLESS, True))
            vs["N_epsilon"] = lambda: dict(N_epsilon=3)
        return vs

    def cond_pairs(it, fin, B):
        k = "Conductivity (%s%s, after one with another %%s)" % ("finite T" if fin else "T=0", "" if B else ", no field")
        alone = twin(it)
        c0 = cond(alone, band(alone), B, fin)
        run(alone, c0)
        want = picture(alone, c0, COND_RES)
        base = list(T.ASSUMED)

        def one(n, other):
            T.ASSUMED[:] = base
            i = twin(it)
            run(i, cond(i, *other(i)[0], **other(i)[1]))
            t = cond(i, band(i), B, fin)
            run(i, t)
            compare(k % n, i, t, COND_RES, want, CFILE)
        for n, f in variants(fin, B).items():
            one(n, lambda i: ((band(i), B, fin), f()))
        one("field", lambda i: ((band(i), not B, fin), {}))
        one("kind of temperature", lambda i: ((band(i), B, not fin), {}))
        for n in ("a", "c", "mu", "energy scale", "model", "resolution z", "zones", "name"):
            one(n, lambda i: ((band(i, **BV[n]()), B, fin), {}))

    def conds(it, fin, B, when):
        k = "Conductivity (%s%s, others %s)" % ("finite T" if fin else "T=0", "" if B else ", no field", when)
        names = COND_RES
        shared = band(it)
        t = cond(it, shared, B, fin) if when == "between" else None
        vs = variants(fin, B)
        if fin:
            for n in ("order", "power", "Bphi"):
                vs.pop(n, None)
        for n, f in vs.items():
            run(it, cond(it, shared, B, fin, **f()))
        run(it, cond(it, shared, not B, fin))
        run(it, cond(it, shared, B, not fin))
        for n in ("mu", "energy scale"):
            run(it, cond(it, band(it, **BV[n]()), B, fin))
        if t is None:
            t = cond(it, shared, B, fin)
        run(it, t)
        alone = twin(it)
        c0 = cond(alone, band(alone), B, fin)
        run(alone, c0)
        compare(k, it, t, names, picture(alone, c0, names), CFILE)
        for kw in ("kf", "dkf", "n"):
            r.ob("isolated/%s.band.%s" % (k, kw), same(snap(attr(alone, bobj(alone, c0), kw)), snap(attr(it, bobj(it, t), kw)))[0], "'%s' of the band depends on other objects" % kw, CFILE)
    for fin in (False, True):
        for B in (True, False):
            for when in ("before", "between"):
                if fin and not r.thorough and (when == "between") is B:
                    continue
                r.scenario("conds %s %s %s" % (fin, B, when), lambda it, a=(fin, B, when): conds(it, *a))
            if r.thorough or not fin or not B:
                r.scenario("conds %s %s pairs" % (fin, B), lambda it, a=(fin, B): cond_pairs(it, *a), paths=1)

    def sweeps(it, when):
        mk = lambda i, t="": admr(i, [cond(i, band(i, tag=t), tag=t)])
        k = "ADMR (others %s)" % when
        alone = twin(it, SUMM)
        o0 = mk(alone)
        run(alone, o0, "runADMR")
        names = ("rhozz_array", "rzz_array", "total_filling", "total_hole_doping", "Btheta_array", "Bphi_array")
        want = picture(alone, o0, names)
        t = mk(it) if when == "between" else None
        run(it, mk(it, "_o"), "runADMR")
        run(it, admr(it, [cond(it, band(it)), cond(it, band(it, tag="_2"), tag="_2")]), "runADMR")
        run(it, admr(it, [cond(it, band(it))], Btheta_norm=S("thn_o", unit(deg=1))), "runADMR")
        t = t or mk(it)
        run(it, t, "runADMR")
        compare(k, it, t, names, want, AFILE)
    for when in ("before", "between"):
        r.scenario("sweeps " + when, lambda it, w=when: sweeps(it, w), hooks=SUMM)

    def fits(it, which):
        def value(i, fit):
            if which == "multi":
                return i.call(i.getattr(fit, "compute_fitness"), [rules_fit.vec(2)], {})
            if which == "parallel":
                return i.call(i.getattr(fit, "compute_diff2"), [rules_fit.vec(2)], {})
            return i.call(i.getattr(fit, "compute_diff"), [i.getattr(fit, "pars")], {})

        def mk(i, phis=(0, 45), normalized=True):
            i.config["fit_symbols"] = True
            if which == "multi":
                return rules_fit.multi_case(i, (25, 12), phis, ("b1",), [("all", "b1", "mu"), (25, "b1", "gamma_0")], normalized)[0]
            if which == "series multi":
                return rules_fit.series_multi(i, {"mu": "common", "Bamp": "dict"}, phis=phis, normalized_data=normalized)[0]
            return one_fit(i, which, ("gamma_0", "mu"), data=rules_fit.one_data(i, (12, 25), phis, 90), normalized_data=normalized)[0]
        alone = twin(it, SUMM)
        want = value(alone, mk(alone))
        value(it, mk(it, (0,)))
        value(it, mk(it, (0, 45), False))
        got = value(it, mk(it))
        src = nondet(got)
        r.ob("deterministic/%s fit" % which, not src, "the residual depends on %s" % ", ".join(sorted(str(x)[7:] for x in src)), FFILE[which])
        res, p = same(snap(want), snap(got))
        r.ob("isolated/%s fit" % which, res, "the residual depends on other fits of the process", FFILE[which])
    for which in ("multi", "parallel", "series", "series multi"):
        r.scenario("fits " + which, lambda it, w=which: fits(it, w), hooks=SUMM)


# ------------------------------------------------------------------ C29
@check("C29", "Assignment equivalence: each setting is assigned to an object built with another value, before its first run and after a run, and the results of the next run must equal in normal form those of an object built with that value; every setting must read back the value given at construction or assigned last, in any order of construction keywords.",
       floor=60)
def c29(r):
    def equal_results(k, it, o, names, fresh, where, nm):
        for n in names:
            a, b = attr(it, o, n), attr(it, fresh, n)
            if a is None and b is None:
                continue
            res, p = same(snap(b), snap(a))
            r.ob("effect %s/%s" % (n, k), res, "after assigning '%s' the result '%s%s' is not that of an object built with the value" % (nm, n, p), where)

    def reads(k, it, o, n, v, where):
        g = attr(it, o, n)
        if g is None:
            r.ob("read %s/%s" % (n, k), False, "the setting '%s' cannot be read" % n, where)
            return
        a, b = snap(v), snap(g)
        res, p = same(a, b)
        if a.kind != b.kind and {a.kind, b.kind} <= {"list", "tuple", "arr"}:
            res = None
        r.ob("read %s/%s" % (n, k), res, "the setting '%s' does not read back the value given to it" % n, where)

    BSET = {"a": lambda: S("a_n", UA, True), "b": lambda: S("b_n", UA, True), "c": lambda: S("c_n", UA, True), "energy_scale": lambda: S("E_n", UE, True),
            "band_params": lambda: D(**{q: S(q + "_n", DLESS) for q in PARAMS3}), "resolution": lambda: L(25, 27, 5),
            "k_max": lambda: L(S("kxn", DLESS, True), S("kyn", DLESS, True), S("kzn", DLESS, True)), "number_of_bz": lambda: S("nbz_n", DLESS, True),
            "band_name": lambda: "renamed"}

    def bs(it, n, march, after):
        k = "BandStructure.%s%s%s" % (n, ", squares" if march else "", ", after a run" if after else "")
        b = band(it, march, run=False)
        if after:
            run(it, b, "runBandStructure")
            run(it, b, "dos_epsilon_func")
        v = (lambda: not march) if n == "march_square" else BSET[n]
        it.setattr(b, n, v())
        reads(k, it, b, n, v(), BFILE)
        kw = {n: v()}
        fresh = band(it, kw.pop("march_square", march), run=False, **kw)
        reads(k + " (built)", it, fresh, n, v(), BFILE)
        for o in (b, fresh):
            run(it, o, "runBandStructure")
            run(it, o, "dos_epsilon_func")
            if it.getattr(o, "march_square") is True:
                run(it, o, "mass_func")
        equal_results(k, it, b, BAND_RES[:-1] if n == "march_square" and march else BAND_RES, fresh, BFILE, n)
    for n in list(BSET) + ["march_square"]:
        for march in (False, True):
            for after in (False, True):
                r.scenario("band %s %s %s" % (n, march, after), lambda it, a=(n, march, after): bs(it, *a))

    CSET = {"Bamp": lambda: S("B_n", UT, True), "Bphi": lambda: S("Bphi_n", unit(deg=1)), "Btheta": lambda: S("Bth_n", unit(deg=1)), "N_time": lambda: S("N_n", DLESS, True, "i"),
            "T": lambda: S("T_n", unit(K=1), True), "dfdE_cut_percent": lambda: S("cut_n", DLESS, True), "N_epsilon": lambda: 3,
            "scattering_params": lambda: D(**{q: S(q + "_n", u, True) for q, u in SC_PARAMS.items()}),
            "scattering_models": lambda: L("isotropic", "sin2phi"), "rtol": lambda: S("rtol_n", DLESS, True), "atol": lambda: S("atol_n", DLESS, True)}
    for q, u in SC_PARAMS.items():
        CSET[q] = lambda q=q, u=u: S(q + "_n", u, True)

    def co(it, n, B, fin, after):
        names = tuple(x for x in COND_RES if fin or x != "epsilon_array")     # the grid of energies is of no use at T = 0
        k = "Conductivity.%s%s%s%s" % (n, "" if B else ", no field", ", finite T" if fin else "", ", after a run" if after else "")
        models = ("isotropic", "cos2phi_coskz", "sin2phi", "gamma_dos_func") if n in SC_PARAMS or n == "scattering_params" else SC_MODELS
        bo = band(it)
        o = cond(it, bo, B, fin, models=models)
        if after:
            run(it, o)
        v = CSET[n]
        it.setattr(o, n, v())
        if n != "scattering_params":
            reads(k, it, o, n, v(), CFILE)
        kw = {n: v()}
        if n in SC_PARAMS:
            kw = {"scattering_params": D(**{q: (v() if q == n else S(q, u, True)) for q, u in SC_PARAMS.items()})}
        fresh = cond(it, bo, B, fin, **dict({"models": models}, **kw))
        reads(k + " (built)", it, fresh, n, v(), CFILE)
        run(it, o)
        run(it, fresh)
        equal_results(k, it, o, names, fresh, CFILE, n)
    for n in CSET:
        for after in (False, True):
            fin = n in ("dfdE_cut_percent", "N_epsilon", "T")
            r.scenario("cond %s %s" % (n, after), lambda it, a=(n, True, fin, after): co(it, *a))
    for n in ("N_time", "T", "Bamp", "gamma_0"):
        r.scenario("cond %s no field" % n, lambda it, a=(n, False, False, True): co(it, *a))
    for n in ("T", "N_epsilon"):
        r.scenario("cond %s from zero T" % n, lambda it, a=(n, True, False, True): co(it, *a))

    # settings of the band of a transport object
    def cband(it, n, B, fin, after):
        k = "Conductivity.bandObject.%s%s%s%s" % (n, "" if B else ", no field", ", finite T" if fin else "", ", after a run" if after else "")
        o = cond(it, band(it), B, fin)
        if after:
            run(it, o)
        own = it.getattr(o, "bandObject")
        it.setattr(own, n, BSET[n]())
        run(it, own, "runBandStructure")
        fresh = cond(it, band(it, **{n: BSET[n]()}), B, fin)
        run(it, o)
        run(it, fresh)
        equal_results(k, it, o, COND_RES if fin else tuple(x for x in COND_RES if x != "epsilon_array"), fresh, CFILE, "bandObject." + n)
    for n in BSET:
        if n == "band_name":
            continue
        for B, fin, after in ((True, False, False), (True, True, True)) if r.thorough or n in ("number_of_bz", "energy_scale", "resolution") else ((True, False, True),):
            r.scenario("cond band %s %s %s" % (n, fin, after), lambda it, a=(n, B, fin, after): cband(it, *a))

    ASET = {"Btheta_norm": lambda: S("thn_n", unit(deg=1)), "show_progress": lambda: True}

    def ad(it, n, after):
        k = "ADMR.%s%s" % (n, ", after a run" if after else "")
        mk = lambda **kw: admr(it, [cond(it, band(it))], **kw)
        o = mk()
        if after:
            run(it, o, "runADMR")
        it.setattr(o, n, ASET[n]())
        reads(k, it, o, n, ASET[n](), AFILE)
        fresh = mk(**{n: ASET[n]()})
        run(it, o, "runADMR")
        run(it, fresh, "runADMR")
        equal_results(k, it, o, ("rhozz_array", "rzz_array", "total_filling", "total_hole_doping"), fresh, AFILE, n)
    for n in ASET:
        for after in (False, True):
            r.scenario("sweep %s %s" % (n, after), lambda it, a=(n, after): ad(it, *a), hooks=SUMM)
