"""Interprocedural abstract interpreter over the package's syntax trees.

Control is followed along the abstract values; a branch whose condition the
abstract state does not decide splits the analysis (trace partitioning, bounded
by MAX_PARTS), see `Partitions`.  Calls into the package are analysed in
context (inlined); calls to libraries use the transfer functions in ext.py;
anything else yields an unknown value that only keeps its dependences.
"""
import ast
import os
import sys
from fractions import Fraction
import terms as T
from terms import P, Poly, ZERO, ONE, ix, map_ix, app, sym
from values import *
import ops
from ops import num, union

sys.setrecursionlimit(12000)

REPO = os.environ.get("SA_REPO", "/repo")
PKG = "cuprates_transport"

BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Mod: "%", ast.Pow: "**",
          ast.FloorDiv: "//", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@",
          ast.LShift: "<<", ast.RShift: ">>"}
CMPOPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}


class Frame:
    __slots__ = ("func", "vars", "module", "closure", "locals_", "globals_", "nonlocals", "yields", "self_cls", "node")

    def __init__(self, func, module, closure):
        self.func = func
        self.vars = {}
        self.module = module
        self.closure = closure
        self.locals_ = None
        self.globals_ = set()
        self.nonlocals = set()
        self.yields = None
        self.self_cls = None
        self.node = None


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class Budget(Exception):
    pass


class AnchorMissing(Exception):
    """a public construct the check is about no longer exists"""


_SRC_CACHE = {}


def load_sources(repo=None):
    repo = repo or REPO
    if repo in _SRC_CACHE:
        return _SRC_CACHE[repo]
    out = {}
    base = os.path.join(repo, PKG)
    for root, dirs, files in os.walk(base):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".py"):
                p = os.path.join(root, f)
                rel = os.path.relpath(p, repo)
                mod = rel[:-3].replace(os.sep, ".")
                if mod.endswith(".__init__"):
                    mod = mod[:-9]
                src = open(p, encoding="utf-8").read()
                out[mod] = (rel, src, ast.parse(src, filename=rel))
    _SRC_CACHE[repo] = out
    return out


def local_names(fn):
    """names bound in a function body (its local scope)"""
    names = set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    glob = set()
    nonl = set()

    def tgt(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    tgt(c.target)
            return
        if isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            tgt(n.target)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            tgt(n.target)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.NamedExpr):
            tgt(n.target)
        for c in ast.iter_child_nodes(n):
            visit(c)
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    for s in body:
        visit(s)
    return names - glob - nonl, glob, nonl


_LN = {}


def local_names_c(fn):
    r = _LN.get(fn)
    if r is None:
        r = _LN[fn] = local_names(fn)
    return r


def is_generator(fn):
    if isinstance(fn, ast.Lambda):
        return False
    stack_ = list(fn.body)
    while stack_:
        n = stack_.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack_.extend(ast.iter_child_nodes(n))
    return False


LOSSY = ("int", "floor", "ceil", "rint", "trunc")


def lossy_key(kk):
    """a key that different numbers can share"""
    if kk[0] == "p":
        for A in T.atoms_of(kk[1]):
            if A.kind == "app" and (A.key[1] in LOSSY or A.key[1] == "round" and (A.key[2][1].const() is None or A.key[2][1].const() <= 6)):
                return True
        return False
    if kk[0] == "sv":
        return any(isinstance(x, tuple) and len(x) == 3 and x[2] not in ("", "s", "%s", "r", "%r") for x in kk[1])
    return kk[0] == "t" and any(isinstance(x, tuple) and lossy_key(x) for x in kk[1:])


def _skeleton(kk):
    if kk[0] == "sv":
        return ("sv",) + tuple(x if isinstance(x, str) else (x[0], x[-1]) for x in kk[1])
    if kk[0] == "t":
        return ("t",) + tuple(_skeleton(x) if isinstance(x, tuple) and x and x[0] in ("sv", "t", "p") else x for x in kk[1:])
    return kk[0] if kk[0] == "p" else kk


class Interp(ops.Ctx):
    MAX_STEPS = 900000
    MAX_DEPTH = 70

    def __init__(self, script=(), repo=None, assume=None, hooks=None):
        self.repo = repo or REPO
        self.src = load_sources(self.repo)
        self.modules = {}
        self.frames = []
        self.events = []
        self.script = list(script)
        self.decided = {}
        self.trace = []          # [(key, value, loc)]
        self.assume = assume or {}
        self.steps = 0
        self.counter = {}
        self.hooks = hooks or {}
        self.fs = {}             # abstract file system: path -> value
        self.functions = set()   # functions of the package analysed
        self.call_sites = set()
        self.loading = []
        self.locks = []
        self.config = {}
        self.cur = None
        self.unsupported = []
        self.widened = 0
        self.exc_stack = []
        self.caller_objs = []
        self.warn_eq = []
        self.trace_stack = []
        self.opaque_eq = frozenset()   # inputs constrained by equalities that are not solved
        T.ASSUMED.clear()
        ops.ODD.clear()
        import ext
        self.ext = ext

    # ------------------------------------------------------------ infra
    def fresh(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return "%s#%d" % (base, n)

    def loc(self):
        if not self.frames:
            return ("?", 0, "?")
        f = self.frames[-1]
        node = f.node
        line = getattr(node, "lineno", 0) if node is not None else 0
        fn = f.func.name if f.func is not None else "<module>"
        if f.func is not None and f.func.cls is not None:
            fn = f.func.cls.name + "." + fn
        return (f.module.path, line, fn)

    def event(self, kind, **info):
        info["kind"] = kind
        info["loc"] = self.loc()
        info["stack"] = tuple((fr.func.name if fr.func else "<module>") for fr in self.frames[-6:])
        self.events.append(info)

    def unsup(self, what):
        self.unsupported.append((what, self.loc()))

    def decide(self, key, default=True, branch=True):
        """truth of an undecided condition"""
        if key in self.decided:
            return self.decided[key]
        a = self.assume.get(key)
        if a is not None:
            return a
        if not branch:
            return default
        i = len(self.trace)
        v = self.script[i] if i < len(self.script) else default
        self.trace.append((key, v, self.loc(), default))
        if key is not None:
            self.decided[key] = v
        return v

    # ------------------------------------------------------------ modules
    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if name not in self.src:
            return None
        rel, src, tree = self.src[name]
        m = ModV(name, {}, rel)
        self.modules[name] = m
        m.ns["__name__"] = name
        m.ns["__file__"] = "/" + rel
        fr = Frame(None, m, None)
        fr.vars = m.ns
        self.frames.append(fr)
        try:
            self.exec_block(tree.body)
        except AbsExc as e:
            self.event("module-exception", exc=str(e), name=name)
        finally:
            self.frames.pop()
        return m

    def need(self, mod, name):
        m = self.load(PKG + "." + mod)
        if m is None or name not in m.ns:
            raise AnchorMissing("%s.%s.%s not found" % (PKG, mod, name))
        return m.ns[name]

    # ------------------------------------------------------------ statements
    def exec_block(self, body):
        for s in body:
            self.exec(s)

    def exec(self, s):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Budget()
        fr = self.frames[-1]
        fr.node = s
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unsup("stmt " + type(s).__name__)
            return
        m(s)

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name_load(t.id, t)
            v = self.ev(s.value)
            self.name_store(t.id, self.inplace(op, cur, v))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr(o, t.attr)
            v = self.ev(s.value)
            self.setattr(o, t.attr, self.inplace(op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev_slice(t.slice)
            cur = self.getitem(o, k)
            v = self.ev(s.value)
            self.setitem(o, k, self.inplace(op, cur, v, fresh_ok=True))
        else:
            self.unsup("augassign")

    def inplace(self, op, cur, v, fresh_ok=False):
        if isinstance(cur, Arr):
            d = cur.data
            if d.shape is None or d.shape != ():
                nd = self.binop_data(op, self.to_data(cur), self.to_data(v))
                if nd is not None:
                    if d.shape is not None and nd.shape is not None and len(nd.shape) != len(d.shape):
                        self.event("shape-mismatch", a="in-place %s of %s" % (op, ops.show_shape([d, nd])), dims=("", ""))
                    self.mutated(cur, "in-place " + op)
                    cur.set_data(nd)
                    return cur
        if isinstance(cur, ListV) and op == "+":
            self.mutated(cur, "in-place +")
            cur.items.extend(self.iterate(v))
            return cur
        return self.binop(op, cur, v)

    def mutated(self, obj, how):
        """in-place modification of an object with identity"""
        root = obj.root() if isinstance(obj, Arr) else obj
        self.event("mutate", obj=root, how=how)

    def s_For(self, s):
        it = self.ev(s.iter)
        items = self.iterate(it, loop=True)
        broke = False
        for x in items:
            self.frames[-1].node = s
            self.assign(s.target, x)
            try:
                self.exec_block(s.body)
            except BreakX:
                broke = True
                break
            except ContinueX:
                continue
        if not broke:
            self.exec_block(s.orelse)
    s_AsyncFor = s_For

    def s_While(self, s):
        n = 0
        while True:
            self.frames[-1].node = s
            v = self.ev(s.test)
            t = self.truth3(v)
            if t is None:
                self.widened += 1
                t = n < 2
            if not t:
                self.exec_block(s.orelse)
                return
            n += 1
            if n > 400:
                self.unsup("while bound")
                return
            try:
                self.exec_block(s.body)
            except BreakX:
                return
            except ContinueX:
                continue

    def s_If(self, s):
        if self.is_main_guard(s.test):
            return
        if self.truth(self.ev(s.test)):
            self.exec_block(s.body)
        else:
            self.exec_block(s.orelse)

    def is_main_guard(self, t):
        return isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == "__name__"

    def s_Return(self, s):
        raise ReturnX(self.ev(s.value) if s.value is not None else None)

    def s_Break(self, s):
        raise BreakX()

    def s_Continue(self, s):
        raise ContinueX()

    def s_Global(self, s):
        for n in s.names:
            self.frames[-1].globals_.add(n)

    def s_Nonlocal(self, s):
        for n in s.names:
            self.frames[-1].nonlocals.add(n)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.frames[-1].vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                k = self.ev_slice(t.slice)
                if isinstance(o, DictV):
                    o.d.pop(self.keyof(k), None)
                    self.mutated(o, "del")
                elif isinstance(o, ListV):
                    c = self.concrete(k)
                    if isinstance(c, int) and -len(o.items) <= c < len(o.items):
                        del o.items[c]
                    self.mutated(o, "del")
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                if isinstance(o, ObjV):
                    o.attrs.pop(t.attr, None)

    def s_Assert(self, s):
        v = self.ev(s.test)
        t = self.truth3(v)
        if t is False:
            raise AbsExc("AssertionError", "assertion fails", self.loc())
        if t is None:
            # an assertion on an unknown value is taken to hold
            pass

    def s_Raise(self, s):
        if s.exc is None:
            if self.exc_stack:
                raise self.exc_stack[-1]
            raise AbsExc("RuntimeError", "re-raise", self.loc())
        v = self.ev(s.exc)
        name = "Exception"
        if isinstance(v, ExtV):
            name = v.path.split(".")[-1]
        elif isinstance(v, TopV):
            name = v.path.replace("()", "").split(".")[-1]
        elif isinstance(v, ObjV) and isinstance(v.cls, ClassV):
            name = v.cls.name
        elif isinstance(v, ClassV):
            name = v.name
        raise AbsExc(name, "raised", self.loc(), value=v)

    EXC_PARENTS = {"KeyError": ("LookupError", "Exception"), "IndexError": ("LookupError", "Exception"),
                   "UnboundLocalError": ("NameError", "Exception"), "ZeroDivisionError": ("ArithmeticError", "Exception"),
                   "FileNotFoundError": ("OSError", "Exception"), "SystemExit": ("BaseException",),
                   "KeyboardInterrupt": ("BaseException",)}

    def exc_matches(self, e, h):
        if h.type is None:
            return True
        types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        names = []
        for t in types:
            if isinstance(t, ast.Name):
                names.append(t.id)
            elif isinstance(t, ast.Attribute):
                names.append(t.attr)
        if e.name in names or "BaseException" in names:
            return True
        par = self.EXC_PARENTS.get(e.name, ("Exception",))
        return any(p in names for p in par)

    def s_Try(self, s):
        depth = len(self.frames)
        nlocks = len(self.locks)
        try:
            try:
                self.exec_block(s.body)
            except AbsExc as e:
                del self.frames[depth:]
                del self.locks[nlocks:]
                for h in s.handlers:
                    if self.exc_matches(e, h):
                        if h.name:
                            self.name_store(h.name, TopV("exception:" + e.name))
                        self.exc_stack.append(e)
                        self.event("caught", exc=e.name, where=e.loc)
                        try:
                            self.exec_block(h.body)
                        finally:
                            self.exc_stack.pop()
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse)
        finally:
            del self.frames[depth:]
            if s.finalbody:
                self.exec_block(s.finalbody)
    s_TryStar = s_Try

    def s_With(self, s):
        exits = []
        for it in s.items:
            cm = self.ev(it.context_expr)
            v = self.enter(cm)
            exits.append(cm)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        depth = len(self.frames)
        try:
            self.exec_block(s.body)
        finally:
            del self.frames[depth:]
            for cm in reversed(exits):
                self.exit_cm(cm)
    s_AsyncWith = s_With

    def enter(self, cm):
        if isinstance(cm, ObjV):
            if isinstance(cm.cls, ClassV):
                f, c = cm.cls.lookup("__enter__")
                if f is not None:
                    return self.call(BoundV(cm, f), [], {})
            h = self.ext.ENTER.get(cm.cls) if isinstance(cm.cls, str) else None
            if h:
                return h(self, cm)
        return cm

    def exit_cm(self, cm):
        if isinstance(cm, ObjV):
            if isinstance(cm.cls, ClassV):
                f, c = cm.cls.lookup("__exit__")
                if f is not None:
                    self.call(BoundV(cm, f), [None, None, None], {})
                    return
            h = self.ext.EXIT.get(cm.cls) if isinstance(cm.cls, str) else None
            if h:
                h(self, cm)

    def s_Import(self, s):
        for al in s.names:
            if al.name.split(".")[0] == PKG and self.load(al.name) is not None:
                self.name_store(al.asname or al.name.split(".")[0], self.modules[al.name])
            elif al.asname:
                self.name_store(al.asname, ExtV(al.name))
            else:
                self.name_store(al.name.split(".")[0], ExtV(al.name.split(".")[0]))

    def s_ImportFrom(self, s):
        modname = s.module or ""
        if s.level:
            base = self.frames[-1].module.name.split(".")
            base = base[:len(base) - s.level] if self.frames[-1].module.path.endswith("__init__.py") is False else base
            modname = ".".join(base + ([modname] if modname else []))
        for al in s.names:
            nm = al.asname or al.name
            if modname.split(".")[0] == PKG:
                sub = modname + "." + al.name
                m = self.load(modname)
                if m is not None and al.name == "*":
                    for k, v in list(m.ns.items()):
                        if not k.startswith("_"):
                            self.name_store(k, v)
                    continue
                if m is not None and al.name in m.ns:
                    self.name_store(nm, m.ns[al.name])
                elif sub in self.src:
                    self.name_store(nm, self.load(sub))
                else:
                    self.event("import-missing", module=modname, name=al.name)
                    self.name_store(nm, TopV("missing:" + sub))
            else:
                self.name_store(nm, self.ext.resolve(self, modname + "." + al.name))

    def s_FunctionDef(self, s):
        f = self.make_func(s)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.ev(d)
            v = self.call(dv, [v], {}, node=d)
        self.name_store(s.name, v)
    s_AsyncFunctionDef = s_FunctionDef

    def make_func(self, s, name=None):
        defaults = [self.ev(d) for d in s.args.defaults]
        kwd = [self.ev(d) if d is not None else None for d in s.args.kw_defaults]
        fr = self.frames[-1]
        f = FuncV(s, fr.module, fr, name or s.name, defaults, kwd, cls=None)
        return f

    def s_ClassDef(self, s):
        bases = [self.ev(b) for b in s.bases]
        outer = self.frames[-1]
        fr = Frame(outer.func, outer.module, outer)
        fr.vars = {}
        fr.node = s
        c = ClassV(s.name, bases, fr.vars, outer.module.name)
        fr.self_cls = c
        self.frames.append(fr)
        try:
            self.exec_block(s.body)
        finally:
            self.frames.pop()
        for k, v in fr.vars.items():
            self.own(v, c)
        v = c
        for d in reversed(s.decorator_list):
            dv = self.ev(d)
            r = self.call(dv, [v], {}, node=d)
            if isinstance(r, ClassV):
                v = r
        self.name_store(s.name, v)

    def own(self, v, c):
        if isinstance(v, FuncV):
            if v.cls is None:
                v.cls = c
        elif isinstance(v, PropV):
            self.own(v.fget, c)
            self.own(v.fset, c)
        elif isinstance(v, StaticV):
            self.own(v.f, c)

    def s_Match(self, s):
        subj = self.ev(s.subject)
        for c in s.cases:
            if isinstance(c.pattern, ast.MatchValue):
                if self.truth(self.compare("==", subj, self.ev(c.pattern.value))):
                    self.exec_block(c.body)
                    return
            elif isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                if c.pattern.name:
                    self.name_store(c.pattern.name, subj)
                self.exec_block(c.body)
                return
            else:
                self.unsup("match")

    # ------------------------------------------------------------ names
    def name_store(self, name, v):
        fr = self.frames[-1]
        if name in fr.globals_:
            fr.module.ns[name] = v
            if fr.func is not None:
                self.event("global-write", name=name)
            return
        if name in fr.nonlocals:
            c = fr.closure
            while c is not None:
                if name in c.vars:
                    c.vars[name] = v
                    return
                c = c.closure
        fr.vars[name] = v

    def name_load(self, name, node=None):
        fr = self.frames[-1]
        if name in fr.vars and name not in fr.globals_:
            return fr.vars[name]
        if fr.locals_ is not None and name in fr.locals_ and name not in fr.globals_:
            self.event("unbound-local", name=name)
            raise AbsExc("UnboundLocalError", "local '%s' read before assignment" % name, self.loc())
        c = fr.closure
        while c is not None:
            if c.self_cls is None and name in c.vars and c.func is not None:
                return c.vars[name]
            c = c.closure
        if name in fr.module.ns:
            return fr.module.ns[name]
        v = self.ext.builtin(self, name)
        if v is not None:
            return v
        if name == "__class__":
            return fr.self_cls
        self.event("undefined-name", name=name)
        raise AbsExc("NameError", "name '%s' is not defined" % name, self.loc())

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.name_store(t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev_slice(t.slice)
            self.setitem(o, k, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, ListV(self.iterate(v)))

    def unpack(self, elts, v):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, TopV):
            for i, e in enumerate(elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, TopV(v.path + "[*]", v.deps))
                else:
                    self.assign(e, TopV(v.path + "[%d]" % i, v.deps))
            return
        if isinstance(v, Arr):
            d = v.data
            ext = None if d.shape is None or not d.shape else dmul(d.shape[0])
            if not isinstance(ext, int):
                if ext is None and d.shape == ():
                    raise AbsExc("TypeError", "cannot unpack a scalar", self.loc())
                for i, e in enumerate(elts):
                    self.assign(e, self.getitem(v, i))
                return
        items = self.iterate(v)
        if star:
            k = star[0]
            tail = n - k - 1
            for e, x in zip(elts[:k], items[:k]):
                self.assign(e, x)
            self.assign(elts[k].value, ListV(items[k:len(items) - tail]))
            for e, x in zip(elts[k + 1:], items[len(items) - tail:]):
                self.assign(e, x)
            return
        if len(items) != n:
            self.event("unpack-mismatch", want=n, got=len(items))
            raise AbsExc("ValueError", "unpack %d values into %d names" % (len(items), n), self.loc())
        for e, x in zip(elts, items):
            self.assign(e, x)

    # ------------------------------------------------------------ iteration
    def iterate(self, v, loop=False):
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, range):
            if len(v) > 4000:
                self.widened += 1
                return [v[0], v[1]]
            return list(v)
        if isinstance(v, ListV):
            return list(v.items)
        if isinstance(v, DictV):
            return [kv[0] for kv in v.d.values()]
        if isinstance(v, ExtDictKeys):
            return [kv[0] for kv in v.d.d.values()]
        if isinstance(v, ObjDictV):
            return list(v.obj.attrs)
        if isinstance(v, Arr):
            d = v.data
            if d.shape is None:
                self.widened += 1
                return [TopV("elem", d.deps), TopV("elem", d.deps)]
            if d.shape == ():
                raise AbsExc("TypeError", "iteration over a scalar", self.loc())
            n = dmul(d.shape[0])
            if isinstance(n, int) and n <= 16:
                return [self.getitem(v, i) for i in range(n)]
            self.widened += 1
            out = []
            for i in range(2):
                s_ = T.sym(self.fresh("iter"), pos=True)
                out.append(self.getitem(v, Arr(ops.scalar(s_, DLESS, dtype="i"))))
            return out
        if isinstance(v, TopV):
            self.widened += 1
            return [TopV(v.path + "[i]", v.deps), TopV(v.path + "[i]", v.deps)]
        if v is None:
            self.event("none-deref", what="iteration")
            raise AbsExc("TypeError", "iteration over None", self.loc())
        if isinstance(v, ObjV):
            if isinstance(v.cls, ClassV):
                f, c = v.cls.lookup("__iter__")
                if f is not None:
                    return self.iterate(self.call(BoundV(v, f), [], {}))
            it = v.attrs.get("__items__")
            if it is not None:
                return self.iterate(it)
        if isinstance(v, (int, float, Fraction, bool)):
            raise AbsExc("TypeError", "iteration over a number", self.loc())
        self.unsup("iterate %r" % (v,))
        return [TopV("elem"), TopV("elem")]

    # ------------------------------------------------------------ truth
    def truth3(self, v):
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str, Fraction)):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, ListV):
            return len(v.items) > 0
        if isinstance(v, DictV):
            return len(v.d) > 0
        if isinstance(v, StrV):
            return True
        if isinstance(v, Arr):
            d = v.data
            if d.shape is not None and d.shape != ():
                e = ops.extent(d)
                if not (isinstance(e, int) and e == 1):
                    if isinstance(e, int) and e == 0:
                        return False
                    self.event("ambiguous-truth", shape=ops.show_shape([d]))
                    raise AbsExc("ValueError", "truth value of an array", self.loc())
                d = ops.index(self, d, [num(0)] * len(d.shape))
            if d.term is not None:
                c = d.term.const()
                if c is not None:
                    return c != 0
                if T.is_pos(d.term):
                    return True
            return None
        if isinstance(v, TopV):
            return None
        return True

    def truth(self, v):
        t = self.truth3(v)
        if t is not None:
            return t
        key = None
        default = True
        branch = True
        if isinstance(v, Arr):
            term = v.data.term
            if term is not None:
                return self.decide_term(term, v.data.deps)
            key = ("unk", self.loc())
        elif isinstance(v, TopV):
            key = ("top", v.path, self.loc())
            branch = self.config.get("branch_top", False)
        return self.decide(key, default, branch)

    def decide_term(self, t, deps=frozenset()):
        """decide a 0/1 normal form"""
        if T.ASSUMED:
            t = T.red(t)
            c = t.const()
            if c is not None:
                return c != 0
        if len(t.t) == 1:
            ((m, c),) = t.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                A = T._ATOM_LIST[m[0][0]]
                if A.kind == "app" and A.key[1] == "eq0":
                    c = A.key[2][0].const()
                    if c is not None:
                        return c == 0
                    known = A in self.decided
                    r = self.decide(A, False, self.config.get("branch_eq", True))
                    if r and not known:
                        self.equality(A, deps)
                    return r
                known = A in self.decided
                r = self.decide(A, True)
                if r and not known and (A.key[1] if A.kind == "app" else "") in ("all", "any", "and", "or"):
                    self.opaque_eq |= deps
                return r
        if len(t.t) == 2 and t.t.get(()) == 1:
            n = ONE - t
            if len(n.t) == 1:
                ((m, c),) = n.t.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1:
                    return not self.decide_term(n, deps)
        return self.decide(t, True)

    def equality(self, A, deps):
        """this path assumes the argument of A to be zero: terms are compared modulo it"""
        if not T.assume_zero(A.key[2][0]):
            self.opaque_eq |= deps | frozenset(T.sym_names(A.key[2][0]))

    def concrete(self, v):
        """python number of a known scalar, else None"""
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float, Fraction)):
            return v
        if isinstance(v, Arr):
            c = v.data.const()
            if c is None:
                return None
            if c.denominator == 1:
                return int(c)
            return c
        return None

    # ------------------------------------------------------------ data conversion
    def to_data(self, v):
        if isinstance(v, Arr):
            return v.data
        if isinstance(v, Data):
            return v
        if isinstance(v, (bool, int, float, Fraction)):
            return num(v)
        if isinstance(v, TopV):
            return Data(None, None, None, v.deps)
        if isinstance(v, (ListV, tuple)):
            return self.ext.array_data(self, v)
        if isinstance(v, range):
            return self.ext.array_data(self, tuple(v))
        if v is None:
            self.event("none-deref", what="arithmetic")
            raise AbsExc("TypeError", "arithmetic on None", self.loc())
        return None

    def from_data(self, d):
        return Arr(d)

    # ------------------------------------------------------------ operators
    def binop_data(self, op, a, b):
        if a is None or b is None:
            return None
        if op == "@":
            return ops.matmul(self, a, b)
        return ops.binop(self, op, a, b)

    def binop(self, op, a, b):
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)) and not isinstance(a, float):
            try:
                if op == "+":
                    return a + b
                if op == "-":
                    return a - b
                if op == "*":
                    return a * b
                if op == "//":
                    return a // b
                if op == "%":
                    return a % b
                if op == "**" and b >= 0:
                    return a ** b
                if op == "&":
                    return a & b
                if op == "|":
                    return a | b
                if op == "^":
                    return a ^ b
                if op == "<<":
                    return a << b
                if op == ">>":
                    return a >> b
            except ZeroDivisionError:
                raise AbsExc("ZeroDivisionError", "division by zero", self.loc())
        if isinstance(a, (str, StrV)) or isinstance(b, (str, StrV)):
            return self.str_binop(op, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "+":
            return a + b
        if isinstance(a, ListV) and isinstance(b, ListV) and op == "+":
            return ListV(a.items + b.items)
        if isinstance(a, tuple) and isinstance(b, int) and op == "*":
            return a * b
        if isinstance(a, ListV) and isinstance(b, int) and op == "*":
            return ListV(a.items * b)
        if isinstance(a, int) and isinstance(b, ListV) and op == "*":
            return ListV(b.items * a)
        if isinstance(a, SetV) and isinstance(b, SetV):
            ka = {self.keyof(x): x for x in a.items}
            kb = {self.keyof(x): x for x in b.items}
            if op == "-":
                return SetV([v for k, v in ka.items() if k not in kb])
            if op == "&":
                return SetV([v for k, v in ka.items() if k in kb])
            if op == "|":
                ka.update(kb)
                return SetV(list(ka.values()))
        if isinstance(a, DictV) and isinstance(b, DictV) and op == "|":
            r = DictV()
            r.d.update(a.d)
            r.d.update(b.d)
            return r
        if isinstance(a, ObjV) and isinstance(a.cls, ClassV):
            dn = {"+": "__add__", "-": "__sub__", "*": "__mul__", "/": "__truediv__"}.get(op)
            if dn:
                f, c = a.cls.lookup(dn)
                if f is not None:
                    return self.call(BoundV(a, f), [b], {})
        if isinstance(a, ObjV) and isinstance(a.cls, str) or isinstance(b, ObjV) and isinstance(b.cls, str):
            r = self.ext.obj_binop(self, op, a, b)
            if r is not NotImplemented:
                return r
        for x in (a, b):
            if x is None:
                self.event("none-deref", what="operand of " + op)
                raise AbsExc("TypeError", "None operand of %s" % op, self.loc())
        if isinstance(a, TopV) or isinstance(b, TopV):
            return TopV("expr", self.deps(a) | self.deps(b))
        da, db = self.to_data(a), self.to_data(b)
        if da is None or db is None:
            if isinstance(a, (DictV, ListV, ObjV, FuncV)) or isinstance(b, (DictV, ListV, ObjV, FuncV)):
                self.event("type-error", op=op, a=repr(a)[:60], b=repr(b)[:60])
                raise AbsExc("TypeError", "bad operands for %s" % op, self.loc())
            return TopV("expr", self.deps(a) | self.deps(b))
        if op in ("/", "//", "%") and db.const() == 0 and da.shape == () and isinstance(b, (int, float)):
            raise AbsExc("ZeroDivisionError", "division by zero", self.loc())
        r = self.binop_data(op, da, db)
        return Arr(r)

    def str_binop(self, op, a, b):
        if op == "+":
            if isinstance(a, (str, StrV)) and isinstance(b, (str, StrV)):
                if isinstance(a, str) and isinstance(b, str):
                    return a + b
                return StrV(self.segs(a) + self.segs(b), self.deps(a) | self.deps(b))
            if isinstance(a, TopV) or isinstance(b, TopV):
                return StrV(self.segs(a) + self.segs(b), self.deps(a) | self.deps(b))
            self.event("type-error", op="str+", a=repr(a)[:60], b=repr(b)[:60])
            raise AbsExc("TypeError", "str + non-str", self.loc())
        if op == "%" and isinstance(a, (str, StrV)):
            args = b if isinstance(b, tuple) else (b,)
            segs = []
            fmt = a if isinstance(a, str) else "%s"
            import re
            parts = re.split(r"%[-+ #0]*\d*(?:\.\d+)?[sdifgeErxXG]", fmt)
            specs = re.findall(r"%[-+ #0]*\d*(?:\.\d+)?[sdifgeErxXG]", fmt)
            deps = frozenset()
            for i, p in enumerate(parts):
                segs.append(p.replace("%%", "%"))
                if i < len(specs) and i < len(args):
                    segs += list(self.format_segs(args[i], specs[i]))
                    deps = deps | self.deps(args[i])
            return self.mkstr(segs, deps)
        if op == "*" and isinstance(a, str) and isinstance(b, int):
            return a * b
        return TopV("str" + op, self.deps(a) | self.deps(b))

    def segs(self, v):
        if isinstance(v, str):
            return (v,)
        if isinstance(v, StrV):
            return v.segs
        return tuple(self.format_segs(v, ""))

    def mkstr(self, segs, deps=frozenset()):
        s = StrV(segs, deps)
        if all(isinstance(x, str) for x in s.segs) and not deps:
            return "".join(s.segs)
        return s

    def format_segs(self, v, spec):
        if isinstance(v, str):
            return (v,)
        if isinstance(v, StrV):
            return v.segs
        if isinstance(v, bool):
            return (str(v),)
        if isinstance(v, int) and spec in ("", "d", "%d", "%s", "%i"):
            return (str(v),)
        c = v if isinstance(v, (int, float, Fraction)) else None
        if isinstance(v, Arr) and v.data.term is not None and v.data.shape == ():
            c = v.data.term.const()
        if c is not None and spec[-1:] in ("f", "e", "g", "%"):
            try:
                return (format(float(c), spec),)
            except ValueError:
                pass
        if isinstance(v, (int, float, Fraction)):
            return (("num", P(v), spec),)
        if isinstance(v, Arr):
            d = v.data
            return (("num", d.term if d.term is not None else None, spec),)
        if v is None:
            return ("None",)
        return (("opq", type(v).__name__, spec),)

    def unop(self, op, v):
        if isinstance(op, ast.Not):
            t = self.truth3(v)
            if t is None and isinstance(v, Arr) and v.data.term is not None:
                return Arr(v.data.upd(term=ONE - v.data.term)) if v.data.dtype == "b" else (not self.truth(v))
            return not (self.truth(v))
        if isinstance(op, ast.USub):
            if isinstance(v, (int, float, Fraction)):
                return -v
            if isinstance(v, ObjV) and isinstance(v.cls, str) and v.cls in self.ext.OBJBIN:
                return self.ext.obj_binop(self, "*", -1, v)
            d = self.to_data(v)
            if d is None:
                return TopV("neg", self.deps(v))
            return Arr(d.upd(term=None if d.term is None else -d.term, meta={}))
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.Invert):
            d = self.to_data(v)
            if d is not None and d.dtype == "b" and d.term is not None:
                return Arr(d.upd(term=ONE - d.term))
            if isinstance(v, int):
                return ~v
            return TopV("inv", self.deps(v))
        return TopV("unop", self.deps(v))

    def compare(self, op, a, b):
        if op in ("==", "!="):
            r = self.equals(a, b)
            if r is not None:
                return r if op == "==" else (not r)
        if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)):
            a, b = Fraction(a) if not isinstance(a, float) else a, Fraction(b) if not isinstance(b, float) else b
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
        if isinstance(a, str) and isinstance(b, str):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}.get(op, False)
        if op in ("<", "<=", ">", ">=") and (a is None or b is None):
            self.event("none-deref", what="ordering comparison")
            raise AbsExc("TypeError", "ordering comparison with None", self.loc())
        if isinstance(a, TopV) or isinstance(b, TopV):
            return TopV("cmp", self.deps(a) | self.deps(b))
        da = self.to_data(a) if a is not None else None
        db = self.to_data(b) if b is not None else None
        if da is None or db is None:
            if op in ("==", "!="):
                return op == "!="
            return TopV("cmp", self.deps(a) | self.deps(b))
        return Arr(ops.compare(self, op, da, db))

    def equals(self, a, b):
        """python-level equality when not both numeric arrays; None -> numeric compare"""
        if a is None or b is None:
            if isinstance(a, Arr) or isinstance(b, Arr):
                x = a if isinstance(a, Arr) else b
                if x.data.shape is None or x.data.shape != ():
                    # elementwise comparison with None
                    return None if False else self._arr_vs_none(x)
                return False
            if isinstance(a, TopV) or isinstance(b, TopV):
                return None
            return a is b
        if isinstance(a, TopV) or isinstance(b, TopV):
            return None
        for x, y in ((a, b), (b, a)):
            if isinstance(x, ObjV) and x.cls == "sympy.Expr" and not isinstance(y, (str, StrV)):
                d = y.attrs.get("p") if isinstance(y, ObjV) else (
                    self.to_data(y).term if isinstance(y, (int, float, Fraction, Arr)) else None)
                if d is None:
                    return False
                return (x.attrs["p"] - d) is ZERO
        if isinstance(a, (str, StrV)) or isinstance(b, (str, StrV)):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            if isinstance(a, (str, StrV)) and isinstance(b, (str, StrV)):
                return self.segs(a) == self.segs(b)
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            for x, y in zip(a, b):
                r = self.compare("==", x, y)
                if not self.truth(r):
                    return False
            return True
        if isinstance(a, (ClassV, FuncV, ExtV, ObjV, BoundV)) or isinstance(b, (ClassV, FuncV, ExtV, ObjV, BoundV)):
            if isinstance(a, ExtV) and isinstance(b, ExtV):
                return a.path == b.path
            return a is b
        if isinstance(a, DictV) or isinstance(b, DictV):
            if isinstance(a, DictV) and isinstance(b, DictV):
                if set(a.d) != set(b.d):
                    return False
                return all(self.truth(self.compare("==", a.d[k][1], b.d[k][1])) for k in a.d)
            return False
        if isinstance(a, ListV) and isinstance(b, ListV):
            if len(a.items) != len(b.items):
                return False
            return all(self.truth(self.compare("==", x, y)) for x, y in zip(a.items, b.items))
        return None

    def _arr_vs_none(self, x):
        return False

    def deps(self, v):
        if isinstance(v, Arr):
            return v.data.deps
        if isinstance(v, (TopV, StrV)):
            return v.deps
        if isinstance(v, (tuple, list)):
            r = frozenset()
            for x in v:
                r = r | self.deps(x)
            return r
        if isinstance(v, ListV):
            r = frozenset()
            for x in v.items[:64]:
                r = r | self.deps(x)
            return r
        if isinstance(v, DictV):
            r = frozenset()
            for k, x in v.d.values():
                r = r | self.deps(x)
            return r
        return frozenset()

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Budget()
        m = self._dispatch.get(type(e))
        if m is None:
            m = getattr(self, "e_" + type(e).__name__, None)
            if m is None:
                self.unsup("expr " + type(e).__name__)
                return TopV("unsupported")
            self._dispatch[type(e)] = m
        return m(e)

    @property
    def _dispatch(self):
        d = self.__dict__.get("_disp")
        if d is None:
            d = self.__dict__["_disp"] = {}
        return d

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, float):
            return Arr(num(v))
        if isinstance(v, complex):
            return Arr(num(v))
        if v is Ellipsis:
            return Ellipsis
        if isinstance(v, bytes):
            return TopV("bytes")
        return v

    def e_Name(self, e):
        return self.name_load(e.id, e)

    def e_Attribute(self, e):
        o = self.ev(e.value)
        return self.getattr(o, e.attr)

    def e_Subscript(self, e):
        o = self.ev(e.value)
        k = self.ev_slice(e.slice)
        return self.getitem(o, k)

    def ev_slice(self, s):
        if isinstance(s, ast.Slice):
            return SliceV(self.ev(s.lower) if s.lower is not None else None,
                          self.ev(s.upper) if s.upper is not None else None,
                          self.ev(s.step) if s.step is not None else None)
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_slice(x) for x in s.elts)
        return self.ev(s)

    def e_BinOp(self, e):
        return self.binop(BINOPS[type(e.op)], self.ev(e.left), self.ev(e.right))

    def e_UnaryOp(self, e):
        return self.unop(e.op, self.ev(e.operand))

    def e_BoolOp(self, e):
        last = None
        isand = isinstance(e.op, ast.And)
        for x in e.values:
            last = self.ev(x)
            t = self.truth(last)
            if isand and not t:
                return last if self.truth3(last) is not None else False
            if not isand and t:
                return last if self.truth3(last) is not None else True
        return last

    def e_Compare(self, e):
        left = self.ev(e.left)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            if isinstance(op, (ast.Is, ast.IsNot)):
                v = self.identical(left, right)
                if isinstance(op, ast.IsNot):
                    v = not v
            elif isinstance(op, (ast.In, ast.NotIn)):
                v = self.contains(right, left)
                if isinstance(op, ast.NotIn):
                    v = (not v) if isinstance(v, bool) else TopV("notin", self.deps(v))
            else:
                v = self.compare(CMPOPS[type(op)], left, right)
            if len(e.ops) == 1:
                return v
            if not self.truth(v):
                return False
            res = v
            left = right
        return True

    def identical(self, a, b):
        if a is None or b is None:
            if isinstance(a, TopV) or isinstance(b, TopV):
                t = a if isinstance(a, TopV) else b
                return self.decide(("isnone", t.path, self.loc()), False, False)
            return a is b
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, TopV) or isinstance(b, TopV):
                return self.decide(("is", self.loc()), True, False)
            return a is b
        if isinstance(a, ExtV) and isinstance(b, ExtV):
            return a.path == b.path
        if isinstance(a, (int, str)) and isinstance(b, (int, str)):
            return type(a) == type(b) and a == b
        return a is b

    def contains(self, c, x):
        if isinstance(c, DictV):
            k = self.dkey(c.d, x)
            if k in c.d:
                return True
            return False
        if isinstance(c, ExtDictKeys):
            return self.dkey(c.d.d, x) in c.d.d
        if isinstance(c, (ListV, tuple, list, range)):
            kx = self.keyof(x)
            for y in self.iterate(c):
                if self.keyof(y) == kx:
                    return True
            return False
        if isinstance(c, (str, StrV)) and isinstance(x, (str, StrV)):
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            if isinstance(c, StrV) and isinstance(x, str):
                return any(isinstance(s, str) and x in s for s in c.segs)
            return False
        if isinstance(c, Arr):
            d = c.data
            if d.shape is not None and len(d.shape) == 1 and isinstance(dmul(d.shape[0]), int) and dmul(d.shape[0]) <= 16:
                kx = self.keyof(x)
                return any(self.keyof(y) == kx for y in self.iterate(c))
        if c is None:
            self.event("none-deref", what="membership")
            raise AbsExc("TypeError", "membership in None", self.loc())
        return TopV("in", self.deps(c) | self.deps(x))

    def e_IfExp(self, e):
        return self.ev(e.body) if self.truth(self.ev(e.test)) else self.ev(e.orelse)

    def e_Tuple(self, e):
        return tuple(self.seq(e.elts))

    def e_List(self, e):
        return ListV(self.seq(e.elts))

    def e_Set(self, e):
        return self.mkset(self.seq(e.elts))

    def mkset(self, items):
        seen = {}
        for x in items:
            seen.setdefault(self.keyof(x), x)
        return SetV(list(seen.values()))

    def seq(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += self.iterate(self.ev(x.value))
            else:
                out.append(self.ev(x))
        return out

    def e_Dict(self, e):
        d = DictV()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v)
                if isinstance(o, DictV):
                    d.d.update(o.d)
                continue
            kk = self.ev(k)
            d.d[self.keyof(kk)] = (kk, self.ev(v))
        return d

    def e_Lambda(self, e):
        return self.make_func(e, "<lambda>")

    def e_JoinedStr(self, e):
        segs = []
        deps = frozenset()
        for v in e.values:
            if isinstance(v, ast.Constant):
                segs.append(v.value)
            else:
                x = self.ev(v.value)
                spec = ""
                if v.format_spec is not None:
                    sp = self.ev(v.format_spec)
                    spec = sp if isinstance(sp, str) else "?"
                segs += list(self.format_segs(x, spec))
                deps = deps | self.deps(x)
        return self.mkstr(segs, deps)

    def e_FormattedValue(self, e):
        return self.mkstr(self.format_segs(self.ev(e.value), ""))

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_Starred(self, e):
        return self.ev(e.value)

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else None
        fr = self.frames[-1]
        if fr.yields is not None:
            fr.yields.append(v)
        return None

    def e_YieldFrom(self, e):
        v = self.iterate(self.ev(e.value))
        fr = self.frames[-1]
        if fr.yields is not None:
            fr.yields.extend(v)
        return None

    def e_Await(self, e):
        return self.ev(e.value)

    def comp(self, gens, emit):
        outer = self.frames[-1]
        fr = Frame(outer.func, outer.module, outer)
        fr.closure = _CompClosure(outer)
        fr.node = outer.node
        self.frames.append(fr)
        try:
            self._comp(gens, 0, emit)
        finally:
            self.frames.pop()

    def _comp(self, gens, i, emit):
        if i == len(gens):
            emit()
            return
        g = gens[i]
        for x in self.iterate(self.ev(g.iter), loop=True):
            self.assign(g.target, x)
            if all(self.truth(self.ev(c)) for c in g.ifs):
                self._comp(gens, i + 1, emit)

    def e_ListComp(self, e):
        out = []
        self.comp(e.generators, lambda: out.append(self.ev(e.elt)))
        return ListV(out)

    def e_GeneratorExp(self, e):
        out = []
        self.comp(e.generators, lambda: out.append(self.ev(e.elt)))
        return ListV(out)

    def e_SetComp(self, e):
        out = []
        self.comp(e.generators, lambda: out.append(self.ev(e.elt)))
        return self.mkset(out)

    def e_DictComp(self, e):
        d = DictV()

        def emit():
            k = self.ev(e.key)
            d.d[self.keyof(k)] = (k, self.ev(e.value))
        self.comp(e.generators, emit)
        return d

    # ------------------------------------------------------------ calls
    def e_Call(self, e):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in self.frames[-1].vars:
            return self.make_super(e)
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "globals", "vars") and not e.args:
            return self.scope_dict(e.func.id)
        f = self.ev(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.iterate(self.ev(a.value))
            else:
                args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                o = self.ev(k.value)
                if isinstance(o, DictV):
                    for kk, vv in o.d.values():
                        if isinstance(kk, str):
                            if kk in kw:
                                self.event("call-mismatch", func=repr(f), why="multiple values for " + kk)
                                raise AbsExc("TypeError", "multiple values for keyword " + kk, self.loc())
                            kw[kk] = vv
                elif isinstance(o, TopV):
                    kw["**"] = o
            else:
                if k.arg in kw:
                    self.event("call-mismatch", func=repr(f), why="multiple values for " + k.arg)
                    raise AbsExc("TypeError", "multiple values for keyword " + k.arg, self.loc())
                kw[k.arg] = self.ev(k.value)
        self.frames[-1].node = e if hasattr(e, "lineno") else self.frames[-1].node
        return self.call(f, args, kw, node=e)

    def scope_dict(self, which):
        fr = self.frames[-1]
        if which == "globals":
            return GlobalsV(fr.module)
        d = DictV()
        for k, v in fr.vars.items():
            d.d[self.keyof(k)] = (k, v)
        return d

    def make_super(self, e):
        fr = self.frames[-1]
        f = fr
        while f is not None and (f.func is None or f.func.cls is None):
            f = f.closure if not isinstance(f.closure, _CompClosure) else f.closure.outer
        if f is None:
            return TopV("super")
        cls = f.func.cls
        a = f.func.node.args
        first = (a.posonlyargs + a.args)[0].arg
        obj = f.vars.get(first)
        return SuperV(cls, obj)

    def call(self, f, args, kw, node=None):
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw, node)
        if isinstance(f, BoundV):
            if isinstance(f.func, FuncV):
                return self.call_func(f.func, [f.obj] + list(args), kw, node)
            return self.call(f.func, [f.obj] + list(args), kw, node)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw, node)
        if isinstance(f, PyV):
            return f.f(self, list(args), dict(kw))
        if isinstance(f, ExtV):
            return self.ext.call(self, f.path, list(args), dict(kw))
        if isinstance(f, StaticV):
            return self.call(f.f, args, kw, node)
        if isinstance(f, ObjV) and isinstance(f.cls, ClassV):
            g, c = f.cls.lookup("__call__")
            if g is not None:
                return self.call(BoundV(f, g), args, kw, node)
        if isinstance(f, TopV):
            self.event("extcall", path=f.path, args=args, kw=kw)
            # an unknown callee may call back a function it is given: not modelled
            d = f.deps | self.deps(tuple(args)) | self.deps(tuple(kw.values()))
            return TopV(f.path + "()", d)
        if f is None:
            self.event("none-deref", what="call")
            raise AbsExc("TypeError", "None is not callable", self.loc())
        if isinstance(f, (Arr, DictV, ListV, int, str, tuple, StrV)):
            self.event("type-error", op="call", a=repr(f)[:60], b="")
            raise AbsExc("TypeError", "object is not callable", self.loc())
        self.unsup("call %r" % (f,))
        return TopV("call")

    def bind(self, f, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vars_ = {}
        n = len(pos)
        used = list(args[:n])
        for name, v in zip(pos, used):
            vars_[name] = v
        extra = list(args[n:])
        if extra and not a.vararg:
            self.event("call-mismatch", func=f.name, why="%d positional arguments for %d parameters" % (len(args), n))
            raise AbsExc("TypeError", "too many arguments for %s" % f.name, self.loc())
        if a.vararg:
            vars_[a.vararg.arg] = tuple(extra)
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = {}
        top = kw.pop("**", None) if "**" in kw else None
        for k, v in kw.items():
            if k in pos[len(a.posonlyargs):] or k in kwonly:
                if k in vars_:
                    self.event("call-mismatch", func=f.name, why="multiple values for '%s'" % k)
                    raise AbsExc("TypeError", "%s got multiple values for %s" % (f.name, k), self.loc())
                vars_[k] = v
            else:
                rest[k] = v
        if rest and not a.kwarg:
            self.event("call-mismatch", func=f.name, why="unexpected keyword %s" % ", ".join(sorted(rest)))
            raise AbsExc("TypeError", "%s got an unexpected keyword %s" % (f.name, ", ".join(sorted(rest))), self.loc())
        if a.kwarg:
            d = DictV()
            for k, v in rest.items():
                d.d[("s", k)] = (k, v)
            vars_[a.kwarg.arg] = d
        nd = len(f.defaults)
        for i, name in enumerate(pos):
            if name not in vars_:
                j = i - (n - nd)
                if j >= 0:
                    vars_[name] = f.defaults[j]
                elif top is not None:
                    vars_[name] = TopV("kwarg:" + name, top.deps)
                else:
                    self.event("call-mismatch", func=f.name, why="missing argument '%s'" % name)
                    raise AbsExc("TypeError", "%s missing argument %s" % (f.name, name), self.loc())
        for i, name in enumerate(kwonly):
            if name not in vars_:
                if a.kw_defaults[i] is not None:
                    vars_[name] = f.kwdefaults[i]
                else:
                    self.event("call-mismatch", func=f.name, why="missing argument '%s'" % name)
                    raise AbsExc("TypeError", "%s missing argument %s" % (f.name, name), self.loc())
        return vars_

    def call_func(self, f, args, kw, node=None):
        if len(self.frames) > self.MAX_DEPTH:
            self.unsup("recursion depth")
            return TopV("recursion")
        if f.memo is not None:
            for x in list(args) + list(kw.values()):
                if isinstance(x, (ListV, DictV)) or isinstance(x, Arr) and x.data.shape != ():
                    raise AbsExc("TypeError", "unhashable argument of a memoised function", self.loc())
            key = self.keyof(tuple(args)), tuple(sorted((k, self.keyof(v)) for k, v in kw.items()))
            if key not in f.memo:
                m, f.memo = f.memo, None
                try:
                    m[key] = self.call_func(f, args, kw, node)
                finally:
                    f.memo = m
            return f.memo[key]
        q = (f.cls.name + "." if f.cls is not None else "") + f.name
        self.functions.add(f.module.name.split(".")[-1] + "." + q)
        if node is not None and self.frames:
            self.call_sites.add((self.frames[-1].module.path, getattr(node, "lineno", 0), q))
        hk = self.hooks.get("enter")
        vars_ = self.bind(f, args, dict(kw))
        sm = self.hooks.get("summary")
        if sm and q in sm:
            return sm[q](self, vars_)
        fr = Frame(f, f.module, f.closure if f.closure is not None and f.closure.func is not None or
                   isinstance(f.closure, _CompClosure) else None)
        fr.vars = vars_
        loc_, glob, nonl = local_names_c(f.node)
        fr.locals_ = loc_
        fr.globals_ = set(glob)
        fr.nonlocals = set(nonl)
        fr.node = f.node
        if hk:
            hk(self, q, fr)
        self.frames.append(fr)
        depth = len(self.frames)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body)
            if is_generator(f.node):
                fr.yields = []
                try:
                    self.exec_block(f.node.body)
                except ReturnX:
                    pass
                return ListV(fr.yields)
            try:
                self.exec_block(f.node.body)
            except ReturnX as r:
                return r.v
            return None
        finally:
            del self.frames[depth - 1:]

    def instantiate(self, c, args, kw, node=None):
        o = ObjV(c)
        init, k = c.lookup("__init__")
        if init is not None:
            self.call(BoundV(o, init), args, kw, node)
        elif c.opaque_base():
            pass
        elif any("dataclass" in str(x) for x in ()):
            pass
        elif args or kw:
            self.event("call-mismatch", func=c.name, why="takes no arguments")
            raise AbsExc("TypeError", c.name + "() takes no arguments", self.loc())
        return o

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, default=None, has_default=False):
        r = self._getattr(o, name)
        if r is MISSING:
            if has_default:
                return default
            if isinstance(o, (ObjV, ClassV, ModV, SuperV)):
                cn = o.cls.name if isinstance(o, ObjV) and isinstance(o.cls, ClassV) else repr(o)
                self.event("no-attr", cls=cn, name=name)
                raise AbsExc("AttributeError", "%s has no attribute '%s'" % (cn, name), self.loc())
            if o is None:
                self.event("none-deref", what="." + name)
                raise AbsExc("AttributeError", "None has no attribute '%s'" % name, self.loc())
            self.event("no-attr", cls=type(o).__name__, name=name)
            raise AbsExc("AttributeError", "%s has no attribute '%s'" % (type(o).__name__, name), self.loc())
        return r

    def _getattr(self, o, name):
        if isinstance(o, ObjV):
            if isinstance(o.cls, ClassV):
                v, c = o.cls.lookup(name)
                if isinstance(v, PropV):
                    return self.call(v.fget, [o], {})
                if name in o.attrs:
                    return o.attrs[name]
                if c is not None:
                    return self.bind_attr(v, o, o.cls)
                if name == "__dict__":
                    return ObjDictV(o)
                if name == "__class__":
                    return o.cls
                ga, c2 = o.cls.lookup("__getattr__")
                if ga is not None:
                    return self.call(BoundV(o, ga), [name], {})
                if o.cls.opaque_base():
                    return TopV("attr:" + name)
                return MISSING
            if name in o.attrs and o.cls not in self.ext.OBJATTR:
                return o.attrs[name]
            return self.ext.obj_attr(self, o, name)
        if isinstance(o, ModV):
            if name in o.ns:
                return o.ns[name]
            if o.name + "." + name in self.src:
                return self.load(o.name + "." + name)
            return MISSING
        if isinstance(o, ClassV):
            v, c = o.lookup(name)
            if c is not None:
                if isinstance(v, StaticV) and v.kind == "class":
                    return BoundV(o, v.f)
                if isinstance(v, StaticV):
                    return v.f
                return v
            if name in ("__name__", "__qualname__"):
                return o.name
            if o.opaque_base():
                return TopV("attr:" + name)
            if name in ("__dict__", "__doc__", "__module__", "__mro__"):
                return TopV("cls." + name)
            return MISSING
        if isinstance(o, SuperV):
            mro = o.obj.cls.mro() if isinstance(o.obj, ObjV) and isinstance(o.obj.cls, ClassV) else []
            i = mro.index(o.cls) if o.cls in mro else -1
            for c in mro[i + 1:]:
                if name in c.ns:
                    v = c.ns[name]
                    if isinstance(v, PropV):
                        return self.call(v.fget, [o.obj], {})
                    return self.bind_attr(v, o.obj, c)
            if name == "__init__":
                return PyV(lambda it, a, k: None, "object.__init__")
            return MISSING
        if isinstance(o, (FuncV, BoundV, PyV)):
            return self.func_attr(o, name)
        if isinstance(o, ExtV):
            return self.ext.resolve(self, o.path + "." + name)
        if isinstance(o, TopV):
            if name in o.attrs:
                return o.attrs[name]
            return TopV(o.path + "." + name, o.deps)
        if isinstance(o, PropV):
            if name in ("setter", "getter", "deleter"):
                def mk(it, a, k, o=o, name=name):
                    f = a[0]
                    return PropV(o.fget, f) if name == "setter" else PropV(f, o.fset) if name == "getter" else o
                return PyV(mk, "property." + name)
            if name == "fget":
                return o.fget
            if name == "fset":
                return o.fset
        if o is None:
            return MISSING
        return self.ext.value_attr(self, o, name)

    def bind_attr(self, v, o, c):
        if isinstance(v, FuncV):
            return BoundV(o, v)
        if isinstance(v, StaticV):
            if v.kind == "static":
                return v.f
            return BoundV(c, v.f)
        if isinstance(v, PyV) and v.name.startswith("method:"):
            return BoundV(o, v)
        return v

    def func_attr(self, o, name):
        f = o.func if isinstance(o, BoundV) else o
        if isinstance(f, FuncV):
            if name in f.attrs:
                return f.attrs[name]
            if name in ("__name__", "__qualname__"):
                return f.name
            if name == "__doc__":
                return TopV("doc")
            if name == "__wrapped__":
                return MISSING
            if name == "__func__":
                return f
            if name == "__self__" and isinstance(o, BoundV):
                return o.obj
            if name == "__code__":
                c = ObjV("code")
                a = f.node.args
                params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
                if a.vararg:
                    params.append(a.vararg.arg)
                if a.kwarg:
                    params.append(a.kwarg.arg)
                rest = [n for n in ordered_locals(f.node) if n not in params]
                c.attrs["co_varnames"] = tuple(params + rest)
                c.attrs["co_argcount"] = len(a.posonlyargs + a.args)
                c.attrs["co_name"] = f.name
                return c
            if name == "__dict__":
                d = DictV()
                for k, v in f.attrs.items():
                    d.d[("s", k)] = (k, v)
                return d
            if name == "__defaults__":
                return tuple(f.defaults)
            return MISSING
        if isinstance(f, PyV):
            if name in f.attrs:
                return f.attrs[name]
            return TopV("pyattr:" + name)
        return TopV("funcattr")

    def setattr(self, o, name, v):
        if isinstance(o, ObjV):
            if isinstance(o.cls, ClassV):
                p, c = o.cls.lookup(name)
                if isinstance(p, PropV):
                    if p.fset is None:
                        self.event("readonly-property", name=name)
                        raise AbsExc("AttributeError", "property %s has no setter" % name, self.loc())
                    self.call(p.fset, [o, v], {})
                    return
                sa, c = o.cls.lookup("__setattr__")
                if sa is not None:
                    self.call(BoundV(o, sa), [name, v], {})
                    return
            h = self.ext.SETATTR.get(o.cls) if isinstance(o.cls, str) else None
            if h:
                h(self, o, name, v)
                return
            o.attrs[name] = v
            if o.wr is None:
                o.wr = {}
            o.wr[name] = self.loc()
            if self.hooks.get("setattr"):
                self.hooks["setattr"](self, o, name, v)
            return
        if isinstance(o, FuncV):
            o.attrs[name] = v
            return
        if isinstance(o, BoundV):
            raise AbsExc("AttributeError", "cannot set attribute on a bound method", self.loc())
        if isinstance(o, ClassV):
            o.ns[name] = v
            self.event("class-write", cls=o.name, name=name)
            return
        if isinstance(o, ModV):
            o.ns[name] = v
            self.event("global-write", name=name)
            return
        if isinstance(o, Arr):
            if name == "shape":
                dims = self.dims(v)
                if dims is not None:
                    self.set_shape(o, dims)
                return
            return
        if isinstance(o, TopV):
            o.attrs[name] = v
            return
        if isinstance(o, PyV):
            o.attrs[name] = v
            return
        if o is None:
            self.event("none-deref", what="store ." + name)
            raise AbsExc("AttributeError", "None has no attribute '%s'" % name, self.loc())
        if isinstance(o, ExtV):
            self.event("ext-write", path=o.path + "." + name)
            return
        self.unsup("setattr on %r" % (o,))

    def set_shape(self, o, dims):
        old = o.data
        if o.base is None:
            o._data = ops.reshape(self, old, dims)
            return
        ops.reshape(self, old, dims)
        vis = old.vis()
        g0, p0 = o.get, o.put
        o.get = lambda b: ops.reshape(ops.Ctx(), g0(b), dims)
        o.put = (lambda b, v: p0(b, ops.reshape(ops.Ctx(), v, list(vis)))) if p0 is not None and vis is not None else None

    def dims(self, v):
        """shape argument -> list of dims"""
        if isinstance(v, Arr) and v.data.shape is not None and v.data.shape != ():
            v = tuple(self.iterate(v))
        if isinstance(v, (tuple, list, ListV)):
            out = []
            for x in self.iterate(v):
                d = self.dimof(x)
                if d is None:
                    return None
                out.append(d)
            return out
        d = self.dimof(v)
        return None if d is None else [d]

    def dimof(self, x):
        c = self.concrete(x)
        if c is not None:
            return int(c)
        if isinstance(x, Arr) and x.data.term is not None:
            return dim(x.data.term)
        return None

    # ------------------------------------------------------------ items
    def keyof(self, k):
        if isinstance(k, str):
            return ("s", k)
        if isinstance(k, bool):
            return ("n", Fraction(int(k)))
        if isinstance(k, (int, Fraction)):
            return ("n", Fraction(k))
        if isinstance(k, float):
            return ("n", Fraction(repr(k)))
        if k is None:
            return ("none",)
        if isinstance(k, tuple):
            return ("t",) + tuple(self.keyof(x) for x in k)
        if isinstance(k, Arr):
            d = k.data
            if d.shape == () and d.term is not None:
                c = d.term.const()
                if c is not None:
                    return ("n", c)
                return ("p", d.term)
            return ("id", id(k.root()))
        if isinstance(k, StrV):
            return ("sv", k.segs)
        if isinstance(k, TopV):
            return ("top", k.path)
        if isinstance(k, ListV):
            return ("l",) + tuple(self.keyof(x) for x in k.items)
        return ("id", id(k))

    def dkey(self, d, k):
        """key of a dictionary access: rounded or printed numbers can fall on
        the key of another entry"""
        kk = self.keyof(k)
        if kk in d or not d or not lossy_key(kk):
            return kk
        for q in list(d):
            if q[0] == kk[0] and lossy_key(q):
                if kk[0] == "p":
                    hit = self.decide_term(T.app("eq0", q[1] - kk[1]))
                elif _skeleton(q) == _skeleton(kk):
                    hit = self.decide(("same key", q, kk), False)
                else:
                    hit = False
                if hit:
                    return q
        return kk

    def raw_key(self, k):
        """index key of a numeric object -> list for ops.index, or None"""
        ks = k if isinstance(k, tuple) else (k,)
        out = []
        for x in ks:
            if x is None or x is Ellipsis:
                out.append(x)
            elif isinstance(x, SliceV):
                t = []
                for y in (x.lo, x.hi, x.st):
                    if y is None:
                        t.append(None)
                    else:
                        d = self.to_data(y)
                        if d is None or d.term is None or d.shape != ():
                            t.append(None if d is None else app("dim?any"))
                        else:
                            t.append(d.term)
                out.append(("slice", t[0], t[1], t[2]))
            elif isinstance(x, (int, bool, Arr, ListV, Fraction, range)):
                d = self.to_data(x)
                if d is None:
                    return None
                if d.dtype == "f" and d.const() is not None and d.const().denominator == 1:
                    d = d.upd(dtype="i")
                out.append(d)
            elif isinstance(x, TopV):
                return None
            else:
                return None
        return out

    def getitem(self, o, k):
        if isinstance(o, DictV):
            kk = self.dkey(o.d, k)
            if kk in o.d:
                return o.d[kk][1]
            if o.on_miss is not None:
                return o.on_miss(self, o, k)
            if not o.exact or isinstance(k, TopV):
                return TopV("item", self.deps(o))
            self.event("key-missing", key=repr(k)[:80], keys=[repr(x[0])[:40] for x in list(o.d.values())[:12]])
            raise AbsExc("KeyError", "key %s not in dict" % (repr(k)[:60],), self.loc())
        if isinstance(o, GlobalsV):
            if isinstance(k, str) and k in o.module.ns:
                return o.module.ns[k]
            self.event("undefined-name", name=str(k))
            raise AbsExc("KeyError", "globals()[%r]" % (k,), self.loc())
        if isinstance(o, (ListV, tuple, list, str, range)):
            items = o if isinstance(o, (tuple, list, str, range)) else o.items
            if isinstance(k, SliceV):
                lo, hi, st = (None if x is None else self.concrete(x) for x in (k.lo, k.hi, k.st))
                if any(y is not None and x is None for x, y in ((lo, k.lo), (hi, k.hi), (st, k.st))):
                    r = list(items)
                else:
                    r = items[slice(None if lo is None else int(lo), None if hi is None else int(hi),
                                    None if st is None else int(st))]
                if isinstance(o, ListV):
                    return ListV(r)
                return tuple(r) if isinstance(o, (tuple, list)) else r
            c = self.concrete(k)
            if c is None:
                if isinstance(k, (str, StrV, tuple)):
                    raise AbsExc("TypeError", "sequence index must be an integer", self.loc())
                if len(items) and isinstance(k, (Arr, TopV)):
                    return items[0] if len(items) == 1 else TopV("item", self.deps(tuple(items)))
                return TopV("item")
            if isinstance(c, Fraction) and c.denominator != 1:
                raise AbsExc("TypeError", "non-integer index", self.loc())
            c = int(c)
            if not (-len(items) <= c < len(items)):
                self.event("index-range", n=len(items), i=c)
                raise AbsExc("IndexError", "index %d of %d items" % (c, len(items)), self.loc())
            return items[c]
        if isinstance(o, Arr):
            d0 = o.data
            rk = self.raw_key(k)
            if rk is None:
                return Arr(Data(None, None, d0.unit, d0.deps | self.deps(k)))
            if d0.shape == ():
                if all(x is None or x is Ellipsis for x in rk):
                    return Arr(ops.index(self, d0, rk))
                self.event("index-rank", shape="()", n=len(rk))
                raise AbsExc("TypeError", "scalar is not subscriptable", self.loc())
            nd = ops.index(self, d0, rk)
            fancy = any(isinstance(x, Data) and x.shape != () for x in rk)
            if fancy or nd.shape == ():
                return Arr(nd)
            me = self

            def get(bd, rk=rk):
                return ops.index(ops.Ctx(), bd, rk)

            def put(bd, v, rk=rk):
                return ops.set_index(ops.Ctx(), bd, rk, v)
            return Arr(None, base=o, get=get, put=put)
        if isinstance(o, (TopV, StrV)):
            return TopV(getattr(o, "path", "str") + "[]", self.deps(o) | self.deps(k))
        if isinstance(o, ObjV):
            if isinstance(o.cls, ClassV):
                f, c = o.cls.lookup("__getitem__")
                if f is not None:
                    return self.call(BoundV(o, f), [k], {})
                if o.cls.opaque_base():
                    return TopV("item")
                self.event("type-error", op="[]", a=o.cls.name, b="")
                raise AbsExc("TypeError", o.cls.name + " is not subscriptable", self.loc())
            return self.ext.obj_getitem(self, o, k)
        if o is None:
            self.event("none-deref", what="[]")
            raise AbsExc("TypeError", "None is not subscriptable", self.loc())
        if isinstance(o, (ExtV, ExtDictKeys)):
            if isinstance(o, ExtV):
                return self.ext.ext_getitem(self, o, k)
            self.event("type-error", op="[]", a="dict view", b="")
            raise AbsExc("TypeError", "dict view is not subscriptable", self.loc())
        if isinstance(o, (int, float, Fraction, bool)):
            self.event("type-error", op="[]", a="number", b="")
            raise AbsExc("TypeError", "number is not subscriptable", self.loc())
        self.unsup("getitem %r" % (o,))
        return TopV("item")

    def setitem(self, o, k, v):
        if isinstance(o, DictV):
            self.mutated(o, "item store")
            kk = self.dkey(o.d, k)
            o.d[kk] = (k if kk not in o.d else o.d[kk][0], v)
            if o.watch:
                o.watch(self, o, k, v)
            return
        if isinstance(o, GlobalsV):
            o.module.ns[k] = v
            self.event("global-write", name=str(k))
            return
        if isinstance(o, ListV):
            self.mutated(o, "item store")
            c = self.concrete(k)
            if c is not None and -len(o.items) <= c < len(o.items):
                o.items[int(c)] = v
            elif c is not None:
                self.event("index-range", n=len(o.items), i=c)
                raise AbsExc("IndexError", "assignment index out of range", self.loc())
            return
        if isinstance(o, Arr):
            d = o.data
            rk = self.raw_key(k)
            self.mutated(o, "item store")
            vd = self.to_data(v)
            if vd is None or rk is None:
                o.set_data(d.upd(term=None, deps=d.deps | self.deps(v)))
                return
            o.set_data(ops.set_index(self, d, rk, vd))
            return
        if isinstance(o, ObjV) and isinstance(o.cls, ClassV):
            f, c = o.cls.lookup("__setitem__")
            if f is not None:
                self.call(BoundV(o, f), [k, v], {})
                return
            self.event("type-error", op="[]=", a=o.cls.name, b="")
            raise AbsExc("TypeError", o.cls.name + " does not support item assignment", self.loc())
        if isinstance(o, (TopV, ExtV)):
            return
        if o is None:
            self.event("none-deref", what="[]=")
            raise AbsExc("TypeError", "None does not support item assignment", self.loc())
        if isinstance(o, tuple) or isinstance(o, str):
            self.event("type-error", op="[]=", a="tuple", b="")
            raise AbsExc("TypeError", "tuple does not support item assignment", self.loc())
        if isinstance(o, ObjDictV):
            self.setattr(o.obj, k, v)
            return
        self.unsup("setitem %r" % (o,))


MISSING = object()


class _CompClosure(Frame):
    """comprehension scope delegates lookups to the enclosing frame"""

    def __init__(self, outer):
        Frame.__init__(self, outer.func if outer.func is not None else _DUMMY, outer.module, outer.closure)
        self.outer = outer
        self.vars = outer.vars
        self.self_cls = outer.self_cls if outer.func is None else None
        if outer.func is None and outer.self_cls is not None:
            self.self_cls = None


class _D:
    cls = None
    name = "<module>"
    node = None


_DUMMY = _D()


class SuperV(V):
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class GlobalsV(V):
    def __init__(self, module):
        self.module = module


class ObjDictV(V):
    def __init__(self, obj):
        self.obj = obj


class ExtDictKeys(V):
    """live view of a dict (keys/values/items)"""

    def __init__(self, d, kind):
        self.d = d
        self.kind = kind


def ordered_locals(fn):
    out = []
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in out:
            out.append(n.id)
    return out
