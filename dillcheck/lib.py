"""Shared machinery of the rules: contexts, obligations, decision tables."""
import ast
import itertools
import os
import re

from . import terms as tm
from .engine import Engine, Policy
from .program import AnalysisError, FuncInfo, Program, load_vocab
from .terms import T, const, g, mk

HERE = os.path.dirname(os.path.abspath(__file__))


class Ob:
    """one obligation: a rule applied to one construct"""
    __slots__ = ("rule", "construct", "ok", "msg", "file", "line")

    def __init__(self, rule, construct, ok, msg="", file="", line=0):
        self.rule, self.construct, self.ok = rule, construct, ok
        self.msg, self.file, self.line = msg, file, line


class Fork(Exception):
    def __init__(self, atom):
        self.atom = atom


LITERAL = re.compile(r"^(.+) == ('[^']*'|-?\d+)$")


class Oracle:
    """valuation of the branch conditions of one path (completed by forking)"""

    def __init__(self, known, extra):
        self.known, self.extra = known, extra

    def __call__(self, atom, default=None):
        if atom in self.known:
            return self.known[atom]
        if atom in self.extra:
            return self.extra[atom]
        m = LITERAL.match(atom)
        if m and any(v and (o := LITERAL.match(k)) and o.group(1) == m.group(1) and o.group(2) != m.group(2)
                     for d in (self.known, self.extra) for k, v in d.items()):
            return False    # it equals another literal
        if default is not None:
            return default
        raise Fork(atom)

    def get(self, atom):
        return self.known.get(atom, self.extra.get(atom))

    def any(self, *atoms):
        """first known of several spellings of one condition"""
        for a in atoms:
            neg = a.startswith("!")
            a1 = a[1:] if neg else a
            v = self.get(a1)
            if v is not None:
                return (not v) if neg else v
        a = atoms[0]
        if a.startswith("!"):
            return not self(a[1:])
        return self(a)


def TRACK_ALL(atom):
    return True


SKIP = object()     # spec: infeasible / don't care


class Ctx:
    def __init__(self, repo, pid, tier="quick"):
        self.prog = Program(repo)
        self.vocab = load_vocab()
        self.pid, self.tier = pid, tier
        self.obs = []
        self.nfuncs, self.npaths, self.nsites = set(), 0, 0
        self.floors = {}
        self._cache = {}
        self.engines = {}

    # ------------------------------------------------------------ obligations
    def ob(self, rule, construct, ok, msg="", fi=None, line=0):
        f = ""
        if fi is not None:
            f = self.prog.path(fi.module)
            line = line or fi.node.lineno
        self.obs.append(Ob(rule, construct, bool(ok), msg, f, line))
        return ok

    def floor(self, rule, n):
        """rule `rule` applies to about n constructs here: far fewer means it lost its anchors"""
        self.floors[rule] = max(1, n // 3)

    # ------------------------------------------------------------ engine runs
    def funcs(self, qual):
        return self.prog.need(qual)

    def run(self, fi, names=None, types=None, self_type=None, pre=None, params=None, **pol):
        pol.setdefault("track", None)
        key = (fi.node, names, self_type, repr(sorted((k, str(v)) for k, v in pol.items())),
               repr(pre), repr(params))
        r = self._cache.get(key)
        if r is not None:
            return r
        P = Policy(vocab=self.vocab, types=dict(types or {}), **pol)
        e = Engine(self.prog, P)
        ps = dict(params or {})
        a = fi.node.args
        if a.vararg:
            ps.setdefault(a.vararg.arg, mk("p", "*args"))
        if a.kwarg:
            ps.setdefault(a.kwarg.arg, mk("p", "**kwds"))
        if names:
            for x, n in zip(a.posonlyargs + a.args, names):
                ps.setdefault(x.arg, mk("p", n))
        r = e.run(fi, params=ps, self_type=self_type, pre=pre)
        self._cache[key] = r
        self.engines[id(r)] = e
        self.nfuncs.add(fi.qual)
        self.npaths += len(r)
        return r

    def paths(self, fi, names=None, **kw):
        """tracked paths without the logging calls (input of decision tables)"""
        kw.setdefault("keep", no_trace)
        kw.setdefault("track", TRACK_ALL)
        return self.run(fi, names=names, **kw)

    # --------------------------------------------------------- decision table
    def table(self, rule, fi, paths, outcome, spec, construct=None, maxforks=4096,
              implicit=False):
        """every path's outcome equals what the specification gives for the
        branch conditions established on that path"""
        name = construct or fi.qual
        n = 0
        for p in paths:
            if p.ctl == "raise" and p.implicit and not implicit:
                continue
            n += 1
            known = {tm.show(k): v for k, v in p.facts.items()}
            got = outcome(p)
            bad = None
            for val, exp in completions(known, spec, maxforks):
                if exp is SKIP:
                    continue
                if not matches(exp, got):
                    bad = (val, exp)
                    break
            line = p.events[-1].line if p.events else fi.node.lineno
            if bad:
                conds = dict(known)
                conds.update(bad[0])
                self.ob(rule, name, False, "on the path where %s: expected %s; found %s" % (
                    fmt_conds(conds), fmt_out(bad[1]), fmt_out(got)), fi, line)
            else:
                self.ob(rule, name, True, "", fi, line)
        if not n:
            raise AnalysisError("no path analysed in %s" % name)
        return n


def matches(exp, got):
    if callable(exp):
        return exp(got)
    if isinstance(exp, OneOf):
        return any(matches(e, got) for e in exp.alts)
    return exp == got


class OneOf:
    def __init__(self, *alts):
        self.alts = alts


def fmt_conds(c):
    """readable text of a set of branch conditions"""
    if not c:
        return "(unconditional)"
    return ", ".join(("" if v else "not ") + "[" + k + "]" for k, v in sorted(c.items()))


def fmt_out(o):
    if isinstance(o, OneOf):
        return " or ".join(fmt_out(a) for a in o.alts)
    if callable(o):
        return getattr(o, "__doc__", None) or o.__name__
    if isinstance(o, (list, tuple)):
        return "{" + "; ".join(str(x) for x in o) + "}"
    return str(o)


def completions(known, spec, maxforks):
    """(assumed conditions, expected outcome) for every completion of `known`"""
    todo = [{}]
    n = 0
    while todo:
        ex = todo.pop()
        n += 1
        if n > maxforks:
            raise AnalysisError("specification forks too often")
        try:
            yield ex, spec(Oracle(known, ex))
        except Fork as f:
            for b in (True, False):
                d = dict(ex)
                d[f.atom] = b
                todo.append(d)


# ------------------------------------------------------------ pickler operations
STOCK = {"pickle._Pickler"}


def is_stock(t):
    return t.op == "g" and t.a[0] in STOCK


RED_PARAMS = ["func", "args", "state", "listitems", "dictitems", "state_setter"]


def flat(args):
    """flatten constant star arguments: f(*(a, b)) -> f(a, b)"""
    out = []
    for x in args:
        if x.op == "star" and x.a[0].op in ("tuple", "list") and \
                not any(y.op in ("each", "star", "upd", "splat") for y in x.a[0].a):
            out.extend(x.a[0].a)
        else:
            out.append(x)
    return out


def show(t):
    return tm.show(t)


def reduction_text(args, kw):
    """canonical text of a reduction given by (func, args, state, ...)"""
    args = flat(args)
    kw = dict(kw)
    vals = {}
    if any(a.op == "star" for a in args):
        vals["*"] = ", ".join(show(a) for a in args)
    else:
        for n, a in zip(RED_PARAMS, args):
            vals[n] = a
    for n in RED_PARAMS:
        if n in kw:
            vals[n] = kw.pop(n)
    kw.pop("obj", None)
    txt = []
    if "*" in vals:
        txt.append(vals["*"])
    else:
        txt.append("%s %s" % (show(vals.get("func")), show(vals.get("args"))))
        for n in RED_PARAMS[2:]:
            if n in vals and vals[n] is not tm.NONE:
                txt.append("%s=%s" % (n, show(vals[n])))
    for n in sorted(kw):
        txt.append("%s=%s" % (n, show(kw[n])))
    return " ".join(txt)


def pickler_op(e, pname="pickler"):
    """canonical text of a pickler operation, or None"""
    if e.kind != "call":
        return None
    t = e.t
    f = t.a[0]
    args, kw = list(tm.cargs(t)), tm.ckw(t)
    if f.op == "attr" and is_stock(f.a[0]) and f.a[1] in (
            "save_reduce", "save_global", "save_dict", "save", "save_tuple", "write"):
        meth, args, stock = f.a[1], args[1:], True
    elif f.op == "g" and f.a[0].rpartition(".")[0] in STOCK:
        meth, args, stock = f.a[0].rpartition(".")[2], args[1:], True
    elif f.op == "attr" and f.a[0].op == "p" and f.a[0].a[0] == pname:
        meth, stock = f.a[1], False
    elif f.op == "g" and f.a[0] == "dill._dill._save_with_postproc":
        red = args[1] if len(args) > 1 else kw.get("reduction")
        obj = kw.get("obj", args[3] if len(args) > 3 else None)
        pp = kw.get("postproc_list", args[4] if len(args) > 4 else tm.NONE)
        if red.op == "tuple":
            txt = reduction_text(red.a, {})
        else:
            txt = show(red)
        return "reduce+ %s obj=%s pp=%s" % (txt, show(obj) if obj is not None else "-", show(pp))
    elif f.op == "g" and f.a[0] == "dill._dill.save_module_dict":
        return None
    else:
        return None
    if meth == "save_reduce":
        obj = kw.get("obj")
        return "reduce %s obj=%s" % (reduction_text(args, kw),
                                     show(obj) if obj is not None and obj is not tm.NONE else "-")
    if meth == "save_global":
        nm = kw.get("name", args[1] if len(args) > 1 else tm.NONE)
        return "global %s name=%s%s" % (show(args[0]) if args else "-", show(nm),
                                        "" if stock else "")
    if meth == "save":
        return "save %s" % show(args[0])
    if meth == "write":
        return "write %s" % " ".join(show(a) for a in args)
    if meth == "save_dict":
        return "save_dict %s" % show(args[0])
    if meth in ("_batch_setitems", "_batch_appends", "memoize", "get", "put"):
        return "%s %s" % (meth, " ".join(show(a) for a in args))
    return None


def pops(p, pname="pickler"):
    """pickler operations of a path, in order"""
    return [o for o in (pickler_op(e, pname) for e in p.events) if o is not None]


def no_trace(kind, t, x=None):
    """keep-filter that drops logging calls"""
    if kind == "call":
        f = t.a[0]
        if f.op == "attr" and f.a[1] in ("trace", "info") :
            return False
        if f.op == "g" and f.a[0].startswith("dill.logger."):
            return False
    return True


# ------------------------------------------------------------ outcome helpers
def result(p):
    if p.ctl == "raise":
        return "raise " + exc_name(p.val)
    return "ret " + show(p.val)


def exc_name(t):
    n = str(t.a[0]) if t.op == "exc" and t.a else "*"
    return n.replace("pickle.", "")


def facts(p):
    """branch conditions of a path: text -> truth"""
    return {show(k): v for k, v in p.facts.items()}


def attrs(p, base="self"):
    """final attribute values stored on `base`"""
    out = {}
    for e in p.events:
        if e.kind == "setattr" and show(e.t) == base:
            out[tm.cval(e.x.a[0]) if isinstance(e.x.a[0], T) else e.x.a[0]] = show(e.x.a[1])
    return out


def calls(p, pred=None):
    """texts of the calls of a path, in order"""
    return [show(e.t) for e in p.events
            if e.kind == "call" and (pred is None or pred(e.t))]


def callee_is(*names):
    def pred(t):
        f = t.a[0]
        return (f.op == "g" and f.a[0] in names) or \
            (f.op == "attr" and ("." + f.a[1]) in names) or show(f) in names
    return pred


def param_names(fi):
    a = fi.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def sweep(ctx, skip=("dill.source.findsource",), only=None, closures=True, **pol):
    """(FuncInfo, path) for every function of the package, closures included"""
    ctx.skipped = []
    for qual in sorted(ctx.prog.funcs):
        if qual in skip or (only and not only(qual)):
            continue
        for fi in ctx.prog.funcs[qual]:
            if is_helper(ctx, fi):
                continue
            try:
                for f, p in run_with_closures(ctx, fi, closures, **pol):
                    yield f, p
            except AnalysisError as e:
                if "state cap" not in str(e):
                    raise
                ctx.skipped.append(qual)


def is_helper(ctx, fi):
    """a function unknown to the frozen vocabulary that is only ever called directly: the engine
    inlines it, so that its effects are judged in its callers"""
    if fi.qual in ctx.vocab or any(getattr(d, "id", None) not in ("staticmethod", "classmethod")
                                   for d in getattr(fi.node, "decorator_list", ())):
        return False
    mod, _, name = fi.qual.rpartition(".")
    if mod in ctx.prog.modules and name in ctx.prog.modules[mod].tree.inlined:
        return True
    refs = getattr(ctx, "_refs", None)
    if refs is None:
        refs = ctx._refs = {}
        for m in ctx.prog.modules.values():
            called = {id(n.func) for n in ast.walk(m.tree) if isinstance(n, ast.Call)}
            for n in ast.walk(m.tree):
                k = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
                if k is not None:
                    c = refs.setdefault(k, [0, 0])
                    c[id(n) in called] += 1
    return refs.get(name, [0, 0])[0] == 0 and refs.get(name, [0, 0])[1] > 0


def closure_nodes(ctx, fi):
    """the nodes of a function and of the helpers it calls that are unknown to the vocabulary"""
    todo, seen = [fi], []
    while todo:
        f = todo.pop()
        if any(f.node is x.node for x in seen):
            continue
        seen.append(f)
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            name = n.func.id if isinstance(n.func, ast.Name) else n.func.attr \
                if isinstance(n.func, ast.Attribute) else None
            for q in ((f.module + "." + name, f.qual.rpartition(".")[0] + "." + name) if name else ()):
                todo += [g for g in ctx.prog.funcs.get(q, []) if is_helper(ctx, g)]
    for f in seen:
        yield from ast.walk(f.node)


def caught_names(ctx, fi):
    """source text of the exception types caught in a function and its helpers"""
    hs = set()
    for t in closure_nodes(ctx, fi):
        if isinstance(t, ast.ExceptHandler):
            if t.type is None:
                hs.add("BaseException")
            else:
                hs |= {ast.unparse(x) for x in (t.type.elts if isinstance(t.type, ast.Tuple) else [t.type])}
    return hs


HANDLER_PARAMS = ("pickler", "obj")


def run_with_closures(ctx, fi, closures=True, names=None, inner=None, **pol):
    if names is None and len(fi.node.args.args) >= 2 and (
            any(fi in v for v in handlers(ctx).values()) or
            fi.qual.startswith(("dill._dill.save_", "dill._dill._save_"))):
        names = HANDLER_PARAMS
    if inner is None and fi.qual.startswith("dill._dill.save_"):
        inner = HANDLER_PARAMS
    P = Policy(vocab=ctx.vocab, **pol)
    e = Engine(ctx.prog, P)
    a = fi.node.args
    ps = {}
    if a.vararg:
        ps[a.vararg.arg] = mk("p", "*args")
    if a.kwarg:
        ps[a.kwarg.arg] = mk("p", "**kwds")
    if names:
        for x, n in zip(a.posonlyargs + a.args, names):
            ps[x.arg] = mk("p", n)
    st = fi.cls if getattr(fi, "cls", None) else None
    r = e.run(fi, params=ps, self_type=st)
    ctx.nfuncs.add(fi.qual)
    ctx.npaths += len(r)
    for p in r:
        yield fi, p
    if not closures:
        return
    done = set()
    i = 0
    while i < len(e.fnreg):
        f2, fid, dfl = e.fnreg[i]
        i += 1
        if f2.node in done:
            continue
        # the state of a path on which the closure's variables are bound
        sts = [p.st for p in r if fid in p.st.frames]
        if not sts:
            continue
        st0 = max(sts, key=lambda s: len(s.frames[fid]))
        done.add(f2.node)
        ar = f2.node.args
        need = [mk("p", x.arg) for x in (ar.posonlyargs + ar.args)]
        if len(dfl or ()):
            need = need[:max(0, len(need) - len(ar.defaults))]
        if inner and len(need) == len(inner):
            need = [mk("p", n) for n in inner]
        try:
            rr = e.run_fn(mk("fn", i - 1, fid), st0, need)
        except AnalysisError:
            raise
        ctx.nfuncs.add(f2.qual)
        ctx.npaths += len(rr)
        for p in rr:
            yield f2, p


# ------------------------------------------------------------ structured reductions
def reduction(e, pname="pickler"):
    """{kind, func, args, state, obj, pp, rest} of a save_reduce/_save_with_postproc call"""
    if e.kind != "call":
        return None
    f = e.t.a[0]
    args, kw = list(tm.cargs(e.t)), tm.ckw(e.t)
    d = dict(state=tm.NONE, obj=None, pp=tm.NONE, kind="reduce", args=None, func=None)
    if f.op == "g" and f.a[0] == "dill._dill._save_with_postproc":
        red = unident(args[1] if len(args) > 1 else kw.get("reduction"))
        d["kind"] = "reduce+"
        d["obj"] = kw.get("obj", args[3] if len(args) > 3 else None)
        d["pp"] = kw.get("postproc_list", args[4] if len(args) > 4 else tm.NONE)
        if red.op != "tuple":
            d["func"] = red
            return d
        args, kw = list(red.a), {}
    elif f.op == "attr" and is_stock(f.a[0]) and f.a[1] == "save_reduce":
        args = args[1:]
    elif f.op == "attr" and f.a[0].op == "p" and f.a[0].a[0] == pname and f.a[1] == "save_reduce":
        pass
    else:
        return None
    args = flat(args)
    if any(x.op == "star" for x in args):
        d["func"] = args[0]
        return d
    vals = dict(zip(RED_PARAMS, args))
    vals.update(kw)
    d["func"] = vals.get("func")
    d["args"] = vals.get("args")
    d["state"] = vals.get("state", tm.NONE)
    if d["obj"] is None:
        d["obj"] = vals.get("obj")
    return d


def unident(t):
    return t.a[0] if t is not None and t.op == "ident" else t


def dict_items(t):
    """{key text: value term} of a dict display with constant keys, else None"""
    t = unident(t)
    if t.op != "dict":
        return None
    out = {}
    for x in t.a:
        if x.op != "kv" or not tm.is_const(x.a[0]):
            return None
        out[tm.cval(x.a[0])] = x.a[1]
    return out


_GETNONE = None


def norm(s):
    """getattr(x, 'a', None) and x.a are the same value wherever x.a exists"""
    import re
    prev = None
    while prev != s:
        prev = s
        s = re.sub(r"getattr\(([\w.]+), '(\w+)', None\)", r"\1.\2", s)
    return s


# ------------------------------------------------------------ handler registration
def module_level(tree, classes=False):
    """statements executed at import time (function bodies excluded, class bodies unless asked for)"""
    todo = list(tree.body)
    while todo:
        st = todo.pop(0)
        yield st
        for f in ("body", "orelse", "finalbody"):
            if not isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)) and (
                    classes or not isinstance(st, ast.ClassDef)):
                todo.extend(getattr(st, f, []) or [])
        for h in getattr(st, "handlers", []) or []:
            todo.extend(h.body)


def handlers(ctx):
    """registered type (source text) -> functions that handle it"""
    h = getattr(ctx, "_handlers", None)
    if h is not None:
        return h
    h = {}
    tree = ctx.prog.modules["dill._dill"].tree
    bynode = {fi.node: fi for fis in ctx.prog.funcs.values() for fi in fis}
    byname = {}
    for st in module_level(tree):
        if isinstance(st, ast.FunctionDef) and st in bynode:
            byname.setdefault(st.name, []).append(bynode[st])
    for st in module_level(tree):
        if isinstance(st, ast.FunctionDef) and st in bynode:
            for d in st.decorator_list:
                if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and \
                        d.func.id == "register" and d.args:
                    h.setdefault(ast.unparse(d.args[0]), []).append(bynode[st])
        for c in ([st.value] if isinstance(st, (ast.Expr, ast.Assign)) else []):
            # register(X)(f), pickle(X, f), Pickler.dispatch[X] = f
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Call) and \
                    isinstance(c.func.func, ast.Name) and c.func.func.id == "register" and \
                    c.args and isinstance(c.args[0], ast.Name):
                for fi in byname.get(c.args[0].id, []):
                    h.setdefault(ast.unparse(c.func.args[0]), []).append(fi)
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "pickle" \
                    and len(c.args) == 2 and isinstance(c.args[1], ast.Name):
                for fi in byname.get(c.args[1].id, []):
                    h.setdefault(ast.unparse(c.args[0]), []).append(fi)
        if isinstance(st, ast.Assign) and isinstance(st.value, ast.Name) and \
                isinstance(st.targets[0], ast.Subscript) and \
                ast.unparse(st.targets[0].value).endswith("Pickler.dispatch"):
            for fi in byname.get(st.value.id, []):
                h.setdefault(ast.unparse(st.targets[0].slice), []).append(fi)
    ctx._handlers = h
    return h


def handler_table(ctx, rule, types, spec, what=pops, **kw):
    """the operations of every handler registered for each of `types` match `spec`"""
    H = handlers(ctx)
    for t in types:
        fis = H.get(t, [])
        ctx.ob(rule, "handler for %s" % t, bool(fis), "no handler is registered for %s" % t)
        for fi in fis:
            ps = ctx.paths(fi, ("pickler", "obj"), **kw)
            ctx.table(rule, fi, ps, what, spec, construct="%s (%s)" % (fi.qual, t))


# ------------------------------------------------------------ effects
MUTATORS = {"append", "extend", "insert", "remove", "pop", "popitem", "clear", "update", "setdefault",
            "add", "discard", "sort", "reverse", "appendleft", "popleft", "move_to_end", "__setitem__",
            "__delitem__", "__setattr__", "__delattr__", "__ior__", "__iadd__", "difference_update",
            "intersection_update"}


def split_g(f):
    """a method of an external object, as an attribute term"""
    if f.op == "g":
        b, _, m = f.a[0].rpartition(".")
        if m in MUTATORS and b:
            return tm.attr(g(b), m)
    return f


def mutation(e):
    """(method, arguments) of a mutating call, however it was logged"""
    if e.kind == "mut":
        return tm.cval(e.x.a[0]), list(e.x.a[1:])
    if e.kind == "call" and written(e) is not None:
        f = split_g(e.t.a[0])
        if f.op == "attr":
            return f.a[1], list(tm.cargs(e.t))
    return None, []


def written(e):
    """term of the place an event writes to (object for item/method writes, attribute term for
    attribute writes, global for global writes), or None"""
    if e.kind in ("setitem", "delitem", "mut"):
        return e.t
    if e.kind == "aug":
        return e.t
    if e.kind in ("setattr", "delattr"):
        x = e.x.a[0] if e.kind == "setattr" else e.x
        return tm.attr(e.t, tm.cval(x)) if tm.is_const(x) else e.t
    if e.kind == "storeglobal":
        return e.t
    if e.kind == "call":
        f = split_g(e.t.a[0])
        if f.op == "attr" and f.a[1] in MUTATORS:
            a = tm.cargs(e.t)
            if f.a[0].op == "g" and f.a[0].a[0] in ("builtins.dict", "builtins.list", "builtins.object",
                                                    "builtins.set", "builtins.type"):
                return a[0] if a else None
            return f.a[0]
        a = tm.cargs(e.t)
        if f.op == "g" and f.a[0] in ("builtins.setattr", "builtins.delattr") and a:
            return tm.attr(a[0], tm.cval(a[1])) if len(a) > 1 and tm.is_const(a[1]) else a[0]
    return None


def write_keep(kind, t, x=None):
    """keep-filter: only events that may write"""
    if kind == "call":
        f = split_g(t.a[0])
        return (f.op == "attr" and f.a[1] in MUTATORS) or show(f) in ("builtins.setattr", "setattr", "delattr")
    return kind in ("setitem", "delitem", "mut", "aug", "setattr", "delattr", "storeglobal")


def module_writes(ctx):
    """(module, node, target text) of the item/attribute writes done at import time"""
    for name, m in sorted(ctx.prog.modules.items()):
        for st in module_level(m.tree, classes=True):
            ts = []
            if isinstance(st, ast.Assign):
                ts = st.targets
            elif isinstance(st, (ast.AugAssign, ast.AnnAssign)):
                ts = [st.target]
            elif isinstance(st, ast.Delete):
                ts = st.targets
            for t in ts:
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    yield name, st, ast.unparse(t)
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and \
                    isinstance(st.value.func, ast.Attribute) and st.value.func.attr in MUTATORS:
                yield name, st, ast.unparse(st.value.func.value)
