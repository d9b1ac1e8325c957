"""Loads the dill package from source and resolves module-level names.

Nothing is imported or executed: every fact comes from the syntax trees of
<repo>/dill/*.py.
"""
import ast
import builtins
import hashlib
import json
import os

from .desugar import desugar
from .terms import T, attr, const, g

HERE = os.path.dirname(os.path.abspath(__file__))


def load_vocab():
    """qualified names of the functions that are analysed on their own"""
    with open(os.path.join(HERE, "vocab.json")) as f:
        return frozenset(json.load(f))


def load_names():
    """the module-level names of every module that the rules know"""
    with open(os.path.join(HERE, "names.json")) as f:
        return {k: frozenset(v) for k, v in json.load(f).items()}


BUILTINS = frozenset(dir(builtins))
SKIP = {"__info__.py", "__main__.py"}


class AnalysisError(Exception):
    """the analysis cannot give an answer (vanished anchor, cap, ...)"""


class FuncInfo:
    __slots__ = ("node", "module", "qual", "cls", "locals", "globals", "nonlocals",
                 "params", "isgen", "lastload", "captured", "decos", "shared")

    def __init__(self, node, module, qual, cls=None):
        self.node = node
        self.module = module
        self.qual = qual
        self.cls = cls
        self._scan()

    def _scan(self):
        node = self.node
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        names = set(self.params) | {x.arg for x in a.kwonlyargs}
        if a.vararg:
            names.add(a.vararg.arg)
        if a.kwarg:
            names.add(a.kwarg.arg)
        self.globals = set()
        self.nonlocals = set()
        self.isgen = False
        self.captured = set()      # names loaded in nested scopes
        self.lastload = {}
        self.decos = getattr(node, "decorator_list", [])
        touch = {}                 # lines holding several simple statements
        for x in ast.walk(node):
            if isinstance(x, ast.stmt) and not hasattr(x, "body"):
                for ln in {x.lineno, x.end_lineno}:
                    touch[ln] = touch.get(ln, 0) + 1
        self.shared = {ln for ln, c in touch.items() if c > 1}

        def visit(n, nested, loopend):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                if not nested and not isinstance(n, ast.Lambda):
                    names.add(n.name)
                for d in getattr(n, "decorator_list", []):
                    visit(d, nested, loopend)
                for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
                    visit(d, nested, loopend)
                body = n.body if isinstance(n.body, list) else [n.body]
                for x in body:
                    visit(x, True, loopend)
                return
            if isinstance(n, ast.ClassDef):
                if not nested:
                    names.add(n.name)
                for x in n.bases + n.decorator_list:
                    visit(x, nested, loopend)
                for x in n.body:
                    visit(x, True, loopend)
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                # evaluated in place by the engine; targets are comp-local
                for x in ast.iter_child_nodes(n):
                    visit(x, nested, max(loopend, n.end_lineno))
                return
            if isinstance(n, ast.Name):
                if isinstance(n.ctx, ast.Load):
                    if nested:
                        self.captured.add(n.id)
                    self.lastload[n.id] = max(self.lastload.get(n.id, 0), n.lineno, loopend)
                elif not nested:
                    names.add(n.id)
                return
            if not nested:
                if isinstance(n, ast.Global):
                    self.globals.update(n.names)
                elif isinstance(n, ast.Nonlocal):
                    self.nonlocals.update(n.names)
                elif isinstance(n, (ast.Yield, ast.YieldFrom)):
                    self.isgen = True
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for al in n.names:
                        names.add(al.asname or al.name.split(".")[0])
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    names.add(n.name)
            elif isinstance(n, ast.Nonlocal):
                names_n.update(n.names)
            if isinstance(n, (ast.For, ast.While)):
                loopend = max(loopend, n.end_lineno + 0.5)
            for x in ast.iter_child_nodes(n):
                visit(x, nested, loopend)

        names_n = set()
        body = node.body if isinstance(node.body, list) else [node.body]
        for x in body:
            visit(x, False, 0)
        self.locals = (names - self.globals) - self.nonlocals
        self.captured |= names_n


class ClassInfo:
    def __init__(self, node, module, qual):
        self.node = node
        self.module = module
        self.qual = qual
        self.members = {}
        self.methods = {}
        for st in node.body:
            collect(st, self.members)
        for n, bs in self.members.items():
            for b in bs:
                if b[0] == "func":
                    self.methods.setdefault(n, []).append(
                        FuncInfo(b[1], module, qual + "." + n, cls=self))


def collect(st, out):
    """record the names a (module/class level) statement binds"""
    def add(name, kind, node=None):
        out.setdefault(name, []).append((kind, node))

    if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
        add(st.name, "func", st)
    elif isinstance(st, ast.ClassDef):
        add(st.name, "class", st)
    elif isinstance(st, ast.Import):
        for al in st.names:
            if al.asname:
                add(al.asname, "import", al.name)
            else:
                add(al.name.split(".")[0], "import", al.name.split(".")[0])
    elif isinstance(st, ast.ImportFrom):
        for al in st.names:
            add(al.asname or al.name, "from", (st.level, st.module, al.name))
    elif isinstance(st, (ast.Assign, ast.AnnAssign)):
        targets = st.targets if isinstance(st, ast.Assign) else [st.target]
        for t in targets:
            if isinstance(t, ast.Name):
                if st.value is not None:
                    add(t.id, "assign", st.value)
            else:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        add(n.id, "other")
    elif isinstance(st, ast.AugAssign):
        if isinstance(st.target, ast.Name):
            add(st.target.id, "other")
    elif isinstance(st, (ast.If, ast.While)):
        for x in st.body + st.orelse:
            collect(x, out)
    elif isinstance(st, ast.For):
        for n in ast.walk(st.target):
            if isinstance(n, ast.Name):
                add(n.id, "other")
        for x in st.body + st.orelse:
            collect(x, out)
    elif isinstance(st, ast.Try):
        for x in st.body + st.orelse + st.finalbody:
            collect(x, out)
        for h in st.handlers:
            for x in h.body:
                collect(x, out)
    elif isinstance(st, ast.With):
        for x in st.body:
            collect(x, out)


class Module:
    def __init__(self, name, path, ispkg):
        self.name = name
        self.path = path
        self.ispkg = ispkg
        with open(path, "rb") as f:
            self.src = f.read()
        known = {q[len(name) + 1:] for q in load_vocab() if q.startswith(name + ".")}
        self.tree = desugar(ast.parse(self.src, filename=path), known, load_names().get(name),
                            name == "dill.__diff")
        self.bindings = {}
        for st in self.tree.body:
            collect(st, self.bindings)
        # names rebound through `global` declarations inside functions
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Global):
                for nm in n.names:
                    self.bindings.setdefault(nm, []).append(("other", None))
        self.cache = {}


class Program:
    def __init__(self, repo):
        self.repo = repo
        self.modules = {}
        self.funcs = {}      # qual -> [FuncInfo]
        self.classes = {}    # qual -> [ClassInfo]
        pkg = os.path.join(repo, "dill")
        h = hashlib.sha256()
        try:
            files = sorted(os.listdir(pkg))
        except OSError as e:
            raise AnalysisError("no dill package: %s" % e)
        for fn in files:
            if not fn.endswith(".py") or fn in SKIP:
                continue
            name = "dill" if fn == "__init__.py" else "dill." + fn[:-3]
            try:
                m = Module(name, os.path.join(pkg, fn), fn == "__init__.py")
            except SyntaxError as e:
                raise AnalysisError("cannot parse %s: %s" % (fn, e))
            self.modules[name] = m
            h.update(m.src)
        self.digest = h.hexdigest()
        for m in self.modules.values():
            for n, bs in m.bindings.items():
                for kind, node in bs:
                    if kind == "func":
                        self.funcs.setdefault(m.name + "." + n, []).append(
                            FuncInfo(node, m.name, m.name + "." + n))
                    elif kind == "class":
                        ci = ClassInfo(node, m.name, m.name + "." + n)
                        self.classes.setdefault(ci.qual, []).append(ci)
                        for mn, fs in ci.methods.items():
                            self.funcs.setdefault(ci.qual + "." + mn, []).extend(fs)
        # functions declared inside module-level `if`s etc. are included by collect()

    # ---- name resolution -------------------------------------------------
    def fromtarget(self, modname, spec):
        level, mod, name = spec
        if level:
            m = self.modules[modname]
            parts = modname.split(".")
            if not m.ispkg:
                parts = parts[:-1]
            if level > 1:
                parts = parts[: len(parts) - (level - 1)]
            base = ".".join(parts + ([mod] if mod else []))
        else:
            base = mod
        return base, name

    def resolve_from(self, modname, spec):
        base, name = self.fromtarget(modname, spec)
        return self.dotted(base, name)

    def dotted(self, base, name):
        """term of attribute `name` of the module/class called `base`"""
        full = base + "." + name
        if base in self.modules:
            m = self.modules[base]
            # submodules win over nothing, but explicit bindings win
            if name in m.bindings:
                r = self.resolve(base, name)
                if r is not None:
                    return r
            if full in self.modules:
                return g(full)
            return g(full)
        if base in self.classes:
            ci = self.classes[base][0]
            if name in ci.members:
                bs = ci.members[name]
                if len(bs) == 1:
                    k, n = bs[0]
                    if k == "from":
                        return self.resolve_from(ci.module, n)
                    if k == "import":
                        return g(n)
                    if k == "assign" and isinstance(n, ast.Constant):
                        return None      # class attribute constant: not folded
                return g(full)
        return g(full)

    def resolve(self, modname, name, _stack=()):
        m = self.modules[modname]
        if name in m.cache:
            return m.cache[name]
        if (modname, name) in _stack:
            return g(modname + "." + name)
        bs = m.bindings.get(name)
        if not bs:
            if name in ("__name__", "__file__", "__doc__", "__builtins__", "__spec__",
                        "__package__", "__loader__", "__path__"):
                r = g(modname + "." + name)
            elif name in BUILTINS:
                r = g("builtins." + name)
            else:
                r = g("?" + name)
            m.cache[name] = r
            return r
        rs = []
        for kind, node in bs:
            if kind in ("func", "class"):
                r = g(modname + "." + name)
            elif kind == "import":
                r = g(node)
            elif kind == "from":
                base, nm = self.fromtarget(modname, node)
                if (base, nm) == (modname, name):
                    r = g(modname + "." + name)
                    continue
                if base in self.modules and nm in self.modules[base].bindings:
                    r = self.resolve(base, nm, _stack + ((modname, name),))
                else:
                    r = g(base + "." + nm)
            elif kind == "assign":
                r = self.alias(modname, node, _stack + ((modname, name),))
                if r is None:
                    r = g(modname + "." + name)
            else:
                r = g(modname + "." + name)
            rs.append(r)
        r = rs[0] if rs and all(x is rs[0] for x in rs) else g(modname + "." + name)
        m.cache[name] = r
        return r

    def alias(self, modname, node, stack):
        """value of a module-level assignment when it is a constant or an alias"""
        if isinstance(node, ast.Constant) and not isinstance(node.value, bool) \
                and node.value is not None:
            return const(node.value)
        if isinstance(node, ast.Name):
            return self.resolve(modname, node.id, stack)
        if isinstance(node, ast.Attribute):
            b = self.alias(modname, node.value, stack)
            if b is not None and b.op == "g":
                return self.getattr_g(b, node.attr)
        return None

    def getattr_g(self, base, name):
        n = base.a[0]
        if name == "__name__" and n in self.modules:
            return const(n)
        if n in self.modules or n in self.classes:
            r = self.dotted(n, name)
            if r is not None:
                return r
            return attr(base, name)
        if n in self.funcs:
            return attr(base, name)
        if n.startswith("dill.") and n.rpartition(".")[0] in self.modules:
            return attr(base, name)      # attribute of a module-level value
        if n.startswith("?"):
            return attr(base, name)
        if name.startswith("__") and name.endswith("__"):
            return attr(base, name)
        return g(n + "." + name)

    # ---- lookups ---------------------------------------------------------
    def func(self, qual):
        f = self.funcs.get(qual)
        return f[-1] if f else None

    def need(self, qual):
        f = self.funcs.get(qual)
        if not f:
            raise AnalysisError("anchor vanished: function %s" % qual)
        return f

    def cls(self, qual):
        c = self.classes.get(qual)
        return c[-1] if c else None

    def path(self, modname):
        return os.path.relpath(self.modules[modname].path, self.repo)

    def method(self, clsqual, name):
        """resolve a method through repo-defined bases"""
        seen = []
        todo = [clsqual]
        while todo:
            q = todo.pop(0)
            if q in seen:
                continue
            seen.append(q)
            c = self.cls(q)
            if c is None:
                continue
            if name in c.methods:
                return c.methods[name][-1]
            for b in c.node.bases:
                r = self.alias(c.module, b, ())
                if r is not None and r.op == "g":
                    todo.append(r.a[0])
        return None

    def global_class(self, term):
        """repo class of which a module-level global is an instance, if evident"""
        if term.op != "g":
            return None
        mod, _, nm = term.a[0].rpartition(".")
        m = self.modules.get(mod)
        if not m:
            return None
        bs = m.bindings.get(nm, ())
        if len(bs) == 1 and bs[0][0] == "assign" and isinstance(bs[0][1], ast.Call):
            r = self.alias(mod, bs[0][1].func, ())
            if r is not None and r.op == "g" and r.a[0] in self.classes:
                return r.a[0]
        return None
