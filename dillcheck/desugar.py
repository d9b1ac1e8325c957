"""Equivalence-preserving normalisation of loops, done on the syntax tree before the analysis.

    it = iter(X); while True: try: T = next(it) except StopIteration: break; B   ->  for T in X: B
    i = 0; while i < len(X): T = X[i]; i += 1; B                                 ->  for T in X: B
    for i in range(len(X)): T = X[i]; B                                          ->  for T in X: B
    for i in range(len(X)): B[X[i]]                                              ->  for x in X: B[x]
    for i, T in enumerate(X): B (i not read)                                     ->  for T in X: B
    q = list(X); while q: T = q.pop(0); B (q not used otherwise)                 ->  for T in list(X): B
    try: x = o.n except AttributeError: x = d                                    ->  x = getattr(o, 'n', d)
    try: x = m[k] except KeyError: x = d                                         ->  x = m.get(k, d)
    if k in m: x = m[k] else: x = d                                              ->  x = m.get(k, d)
    if k in m: x = m.pop(k) else: x = d                                          ->  x = m.pop(k, d)
    (the same for return statements and conditional expressions)
    if k not in m: m[k] = d                                                      ->  m.setdefault(k, d)
    for x in X: break                                                            ->  x = next(iter(X), x)
    for x in X: return x  return C                                               ->  return next(iter(X), C)
    with contextlib.suppress(E): B                                               ->  try: B except E: pass
    except A: B  except C: B                                                     ->  except (A, C): B
    f = False; for T in X: if E: f = True; break                                 ->  f = any(E for T in X)
    for T in X: if E: return True  return False                                  ->  return any(E for T in X)
    def f(a): return E (nested, only called) ... f(x)                            ->  E[x]
    def f(a): return E (unknown to the vocabulary); ... f(x) ...                 ->  E[x]
    list(map(f, X))                                                              ->  [f(x) for x in X]
    C = (literals) (module level, a new name, bound once, only read); ... C ...  ->  (literals)
"""
import ast
import builtins
import copy

SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)


def desugar(tree, known=None, names=None, searches=False):
    """known: local qualified names of the functions that are analysed on their own
    names: the module-level names of the module that the rules know
    searches: write x = any(E for T in X) as a loop after all"""
    tree.inlined = set()
    if names is not None:
        constants(tree, names)
    if known is not None:
        expression_helpers(tree, known)
    supers(tree)
    tree = Handlers(tree).visit(tree)
    for c in list(ast.walk(tree)):
        if isinstance(c, ast.FunctionDef):
            local_helpers(c)
            firsts(c)
            flags(c)
            if searches:
                searched(c)
            found(c)
            scope(c)
    return Lookups().visit(tree)


def supers(tree):
    """in a class with one base B: super().m(...) -> B.m(self, ...)"""
    for c in ast.walk(tree):
        if not (isinstance(c, ast.ClassDef) and len(c.bases) == 1 and not c.keywords and stable(c.bases[0])):
            continue
        for fn in c.body:
            if not (isinstance(fn, ast.FunctionDef) and fn.args.args) or any(
                    name(d) in ("staticmethod", "classmethod") for d in fn.decorator_list) or fn.name == "__new__":
                continue
            me = fn.args.args[0].arg
            for x in own(fn):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                    v = x.func.value
                    if iscall(v, "super", 0) or iscall(v, "super", 2) and name(v.args[0]) == c.name and name(v.args[1]) == me:
                        x.func.value = ast.copy_location(copy.deepcopy(c.bases[0]), v)
                        x.args.insert(0, ast.copy_location(ast.Name(me, ast.Load()), v))
                        ast.fix_missing_locations(x)


def literal(e, ok):
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        return all(literal(x, ok) for x in e.elts)
    if isinstance(e, ast.UnaryOp):
        return isinstance(e.operand, ast.Constant)
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, ast.Constant) or isinstance(e, ast.Name) and e.id in ok


def constants(tree, names):
    """new module-level names for literals are replaced by the literal"""
    bound, used, where = {}, {}, {}

    def bind(nm):
        bound[nm] = bound.get(nm, 0) + 1

    def module(n):
        """what the statements of the module itself bind"""
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            bind(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
            bind(n.id)
        if isinstance(n, ast.alias):
            bind((n.asname or n.name).split(".")[0])
        for x in ast.iter_child_nodes(n):
            module(x)
    for st in tree.body:
        module(st)
    parent = {}
    for n in ast.walk(tree):
        for x in ast.iter_child_nodes(n):
            parent[x] = n
        if isinstance(n, ast.Global):
            for nm in n.names:
                bind(nm)
                bind(nm)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            used.setdefault(n.id, []).append(n)
    once = {k for k, v in bound.items() if v == 1} | (set(dir(builtins)) - set(bound))
    for st in tree.body:
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            nm, e = st.targets[0].id, st.value
            if nm in names or bound[nm] != 1 or nm.startswith("__") or not literal(e, once - {nm}):
                continue
            if isinstance(e, (ast.List, ast.Set)) and not all(read_only(u, parent) for u in used.get(nm, ())):
                continue
            where[nm] = st
    if not where:
        return
    for nm, st in where.items():        # constants that mention other constants
        st.value = Constants({k: v for k, v in where.items() if k != nm}, st).visit(st.value)
    keep = set(where.values())
    for i, st in enumerate(tree.body):
        if st not in keep:
            tree.body[i] = Constants(where, st).visit(st)


def read_only(n, parent):
    p = parent.get(n)
    return isinstance(p, ast.Compare) and n in p.comparators or \
        isinstance(p, (ast.For, ast.comprehension)) and p.iter is n


class Constants(ast.NodeTransformer):
    def __init__(self, where, st):
        self.w, self.hidden = where, [set()]

    def visit_FunctionDef(self, n):
        a = n.args
        local = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x} | \
            {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)}
        self.hidden.append(self.hidden[-1] | local)
        self.generic_visit(n)
        self.hidden.pop()
        return n

    def visit_Lambda(self, n):
        a = n.args
        self.hidden.append(self.hidden[-1] | {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} |
                           {x.arg for x in (a.vararg, a.kwarg) if x})
        self.generic_visit(n)
        self.hidden.pop()
        return n

    def visit_Name(self, n):
        if n.id in self.w and n.id not in self.hidden[-1] and isinstance(n.ctx, ast.Load):
            new = copy.deepcopy(self.w[n.id].value)
            for x in ast.walk(new):
                if hasattr(x, "lineno"):
                    x.lineno, x.col_offset = n.lineno, n.col_offset
                    x.end_lineno, x.end_col_offset = n.end_lineno, n.end_col_offset
            return new
        return n


def expression_helpers(tree, known):
    """calls of module-level functions `def f(a, b): return <expression>` -> the expression"""
    helpers, count = {}, {}
    for st in tree.body:
        if isinstance(st, ast.FunctionDef):
            count[st.name] = count.get(st.name, 0) + 1
            a = st.args
            body = st.body[1:] if isinstance(st.body[0], ast.Expr) and isinstance(
                st.body[0].value, ast.Constant) and len(st.body) > 1 else st.body
            if st.name not in known and not st.decorator_list and not (
                    a.vararg or a.kwarg or a.kwonlyargs or a.defaults) and len(body) == 1 and \
                    isinstance(body[0], ast.Return) and body[0].value is not None and not any(
                        isinstance(n, (ast.Lambda, ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.ListComp,
                                       ast.SetComp, ast.DictComp, ast.GeneratorExp))
                        for n in ast.walk(body[0].value)):
                helpers[st.name] = (st, [x.arg for x in a.posonlyargs + a.args], body[0].value)
    helpers = {k: v for k, v in helpers.items() if count[k] == 1}
    stores = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}
    helpers = {k: v for k, v in helpers.items() if k not in stores}
    if not helpers:
        return
    for c in ast.walk(tree):
        if isinstance(c, ast.FunctionDef) and c.name not in helpers:
            for _ in range(4):
                h = Helpers(helpers, c)
                c.body = [h.visit(x) for x in c.body]
                if not h.n:
                    break
    left = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name)} | \
        {n.attr for n in ast.walk(tree) if isinstance(n, ast.Attribute)}
    tree.inlined = {k for k in helpers if k not in left}


class Helpers(ast.NodeTransformer):
    def __init__(self, helpers, fn):
        self.h, self.n = helpers, 0
        a = fn.args
        self.local = {x.arg for f in ast.walk(fn) if isinstance(f, (ast.FunctionDef, ast.Lambda))
                      for x in f.args.posonlyargs + f.args.args + f.args.kwonlyargs} | \
            {x.arg for x in (a.vararg, a.kwarg) if x} | \
            {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)} | \
            {n.name for n in ast.walk(fn) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn} | \
            {(x.asname or x.name).split(".")[0] for n in ast.walk(fn) if isinstance(n, (ast.Import, ast.ImportFrom))
             for x in n.names}

    def visit_Call(self, n):
        self.generic_visit(n)
        if not isinstance(n.func, ast.Name) or n.func.id not in self.h or n.func.id in self.local:
            return n
        st, ps, e = self.h[n.func.id]
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return n
        m = dict(zip(ps, n.args))
        m.update((k.arg, k.value) for k in n.keywords)
        if set(m) != set(ps) or len(n.args) + len(n.keywords) != len(ps):
            return n
        names = [x.id for x in ast.walk(e) if isinstance(x, ast.Name)]
        if (set(names) - set(ps)) & self.local:
            return n
        for k, v in m.items():
            if names.count(k) != 1 and not (trivial(v) and not isinstance(v, (ast.List, ast.Dict))):
                return n
        self.n += 1
        new = Rename(m).visit(copy.deepcopy(e))
        for x in ast.walk(new):
            if hasattr(x, "lineno"):
                x.lineno, x.col_offset = n.lineno, n.col_offset
                x.end_lineno, x.end_col_offset = n.end_lineno, n.end_col_offset
        return new


class Rename(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        return copy.deepcopy(self.m[n.id]) if n.id in self.m else n


def trivial(e):
    if isinstance(e, ast.Attribute):
        return trivial(e.value)
    if isinstance(e, ast.Subscript):
        return trivial(e.value) and isinstance(e.slice, ast.Constant)
    return isinstance(e, (ast.Constant, ast.Name)) or isinstance(e, (ast.Tuple, ast.List, ast.Dict)) and \
        not list(x for x in ast.iter_child_nodes(e) if not isinstance(x, ast.expr_context))


def membership(t):
    """(key, mapping, True if the body is for present keys)"""
    neg = False
    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        t, neg = t.operand, not neg
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.In, ast.NotIn)):
        k, m = t.left, t.comparators[0]
        if isinstance(k, (ast.Name, ast.Constant)) and isinstance(m, (ast.Name, ast.Attribute)) and stable(m):
            return k, m, isinstance(t.ops[0], ast.In) != neg
    return None


def lookup(k, m, a, b):
    """m[k] / m.pop(k) with the default b"""
    if not trivial(b):
        return None
    if isinstance(a, ast.Subscript) and same_any(a.value, m) and same_any(a.slice, k):
        f = "get"
    elif isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr == "pop" and not a.keywords and \
            len(a.args) == 1 and same_any(a.args[0], k) and same_any(a.func.value, m):
        f = "pop"
    else:
        return None
    return ast.Call(ast.Attribute(m, f, ast.Load()), [k, b], [])


def fix(new, old):
    return ast.fix_missing_locations(ast.copy_location(new, old))


class Handlers(ast.NodeTransformer):
    """suppress contexts become handlers, neighbouring handlers that do the same become one"""
    def __init__(self, tree):
        self.names, self.mods = set(), set()
        for n in ast.walk(tree):
            if isinstance(n, ast.ImportFrom) and n.module == "contextlib":
                self.names |= {a.asname or a.name for a in n.names if a.name == "suppress"}
            elif isinstance(n, ast.Import):
                self.mods |= {a.asname or a.name for a in n.names if a.name == "contextlib"}

    def suppress(self, e):
        return isinstance(e, ast.Call) and not e.keywords and e.args and not any(
            isinstance(a, ast.Starred) for a in e.args) and (
            isinstance(e.func, ast.Name) and e.func.id in self.names or
            isinstance(e.func, ast.Attribute) and e.func.attr == "suppress" and name(e.func.value) in self.mods)

    def visit_With(self, n):
        self.generic_visit(n)
        i = n.items[0]
        if i.optional_vars is None and self.suppress(i.context_expr):
            a = i.context_expr.args
            body = n.body if len(n.items) == 1 else [fix(ast.With(n.items[1:], n.body), n)]
            t = a[0] if len(a) == 1 else ast.Tuple(a, ast.Load())
            h = ast.ExceptHandler(t, None, [ast.Pass()])
            return fix(ast.Try(body, [h], [], []), n)
        return n

    def visit_Try(self, n):
        self.generic_visit(n)
        hs = []
        for h in n.handlers:
            p = hs[-1] if hs else None
            if p and p.type is not None and h.type is not None and p.name == h.name and \
                    [ast.dump(x) for x in p.body] == [ast.dump(x) for x in h.body]:
                ts = [t for x in (p.type, h.type) for t in (x.elts if isinstance(x, ast.Tuple) else [x])]
                hs[-1] = fix(ast.ExceptHandler(ast.Tuple(ts, ast.Load()), p.name, p.body), p)
            else:
                hs.append(h)
        n.handlers = hs
        return n


def own(fn):
    """nodes of a function, those of nested functions and classes left out"""
    todo = list(ast.iter_child_nodes(fn))
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, SCOPES):
            todo += list(ast.iter_child_nodes(x))


BINDERS = (ast.Lambda, ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.ListComp, ast.SetComp, ast.DictComp,
           ast.GeneratorExp)


def local_helpers(fn):
    """a nested function that is only called, and is one expression, is put where it is called"""
    for b in list(blocks(fn)):
        for d in [s for s in b if isinstance(s, ast.FunctionDef)]:
            a = d.args
            if d.decorator_list or a.vararg or a.kwarg or a.kwonlyargs or a.defaults or len(d.body) != 1 or \
                    not isinstance(d.body[0], ast.Return) or d.body[0].value is None:
                continue
            e, ps = d.body[0].value, [x.arg for x in a.posonlyargs + a.args]
            if any(isinstance(n, BINDERS) for n in ast.walk(e)) or len(b) == 1:
                continue
            refs = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == d.name]
            calls = [n for n in own(fn) if isinstance(n, ast.Call) and name(n.func) == d.name]
            defs = [n for n in ast.walk(fn) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == d.name]
            if len(refs) != len(calls) or not calls or len(defs) != 1 or any(
                    isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(fn)):
                continue
            comp = [c for n in own(fn) if isinstance(n, BINDERS[5:]) for c in ast.walk(n) if isinstance(c, ast.Call)]
            ns = [x.id for x in ast.walk(e) if isinstance(x, ast.Name)]
            if any(c is x for c in calls for x in comp) or any(
                    len(c.args) != len(ps) or c.keywords or any(isinstance(x, ast.Starred) for x in c.args) or any(
                        ns.count(p) != 1 and not trivial(x) for p, x in zip(ps, c.args)) for c in calls):
                continue

            class Put(ast.NodeTransformer):
                def visit_Call(self, n):
                    self.generic_visit(n)
                    if any(n is c for c in calls):
                        new = Rename(dict(zip(ps, n.args))).visit(copy.deepcopy(e))
                        for x in ast.walk(new):
                            if hasattr(x, "lineno"):
                                x.lineno, x.end_lineno = n.lineno, n.end_lineno
                        return new
                    return n
            b.remove(d)
            p = Put()
            fn.body = [p.visit(x) for x in fn.body]


def search(s):
    """(tests, last statements) of a loop that looks for an element"""
    tests, body = [], s.body
    while len(body) == 1 and isinstance(body[0], ast.If) and not body[0].orelse:
        tests.append(body[0].test)
        body = body[0].body
    return (tests, body) if tests and not any(isinstance(n, BINDERS[:5]) for t in tests for n in ast.walk(t)) else (None, body)


def quantifier(s, tests, found):
    e = tests[-1]
    fn = "any"
    neg = not found
    if neg and isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        fn, e, neg = "all", e.operand, False
    r = ast.Call(ast.Name(fn, ast.Load()), [ast.GeneratorExp(e, [ast.comprehension(s.target, s.iter, tests[:-1], 0)])], [])
    return ast.UnaryOp(ast.Not(), r) if neg else r


def flags(fn):
    for b in list(blocks(fn)):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.For) and not s.orelse:
                tests, last = search(s)
                names = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
                inside = {id(x) for x in ast.walk(s)}
                free = not any(isinstance(x, ast.Name) and x.id in names and isinstance(x.ctx, ast.Load) and id(x) not in inside
                               for x in ast.walk(fn))
                if tests and free and i and last:
                    f, v = assigned(b[i - 1])
                    g, w = assigned(last[0])
                    if f is not None and f == g and truth(v) is not None and truth(w) is (not truth(v)) and (
                            len(last) == 1 or len(last) == 2 and isinstance(last[1], ast.Break)) and \
                            f not in {x.id for t in tests + [s.iter] for x in ast.walk(t) if isinstance(x, ast.Name)}:
                        b[i - 1:i + 1] = [fix(ast.Assign([ast.Name(f, ast.Store())], quantifier(s, tests, truth(w)), None), s)]
                        continue
                if tests and free and len(last) == 1 and isinstance(last[0], ast.Return) and i + 1 < len(b) and \
                        isinstance(b[i + 1], ast.Return) and truth(last[0].value) is not None and \
                        truth(b[i + 1].value) is (not truth(last[0].value)):
                    b[i:i + 2] = [fix(ast.Return(quantifier(s, tests, truth(last[0].value))), s)]
            i += 1


def searched(fn):
    for b in list(blocks(fn)):
        for i in range(len(b) - 1, -1, -1):
            s = b[i]
            f, e = assigned(s)
            if isinstance(s, ast.Return):
                e = s.value
            elif f is None:
                continue
            neg = isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not)
            if neg:
                e = e.operand
            if not ((iscall(e, "any", 1) or iscall(e, "all", 1)) and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp))):
                continue
            al = name(e.func) == "all"
            end = ast.Constant((not al) != neg)
            if f is not None and f in {x.id for x in ast.walk(e) if isinstance(x, ast.Name)} or len(e.args[0].generators) > 1:
                continue
            FIRST[0] += 1
            put = Renamed({x.id: "_any%d_%s" % (FIRST[0], x.id) for x in ast.walk(e.args[0].generators[0].target)
                          if isinstance(x, ast.Name)}).visit
            it = e.args[0].generators[0].iter
            e.args[0] = put(e.args[0])
            e.args[0].generators[0].iter = it
            t = e.args[0].elt
            if al:
                t = ast.UnaryOp(ast.Not(), t)
            out = [ast.Return(end)] if f is None else [ast.Assign([ast.Name(f, ast.Store())], end, None), ast.Break()]
            body = [ast.If(t, out, [])]
            g = e.args[0].generators[0]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            loop = ast.For(g.target, g.iter, body, [], None)
            other = ast.Constant(not end.value)
            new = [loop, ast.Return(other)] if f is None else [ast.Assign([ast.Name(f, ast.Store())], other, None), loop]
            b[i:i + 1] = [fix(x, s) for x in new]


class Renamed(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Name(self, n):
        return ast.copy_location(ast.Name(self.names[n.id], n.ctx), n) if n.id in self.names else n


FIRST = [0]


def first(e, conv):
    """next((E for x in S if C) ...): the loop that stops at the first one, with the statement conv(E)"""
    g = e.args[0].generators[0]
    FIRST[0] += 1
    m = {x.id: ast.Name("_first%d_%s" % (FIRST[0], x.id), ast.Load()) for x in ast.walk(g.target) if isinstance(x, ast.Name)}

    class Put(ast.NodeTransformer):
        def visit_Name(self, n):
            return ast.copy_location(ast.Name(m[n.id].id, n.ctx), n) if n.id in m else n
    put = Put().visit
    body = conv(put(e.args[0].elt))
    for c in reversed(g.ifs):
        body = [ast.If(put(c), body, [])]
    return ast.For(put(g.target), g.iter, body, [], None)


def isfirst(e, n):
    return iscall(e, "next", n) and isinstance(e.args[0], ast.GeneratorExp) and len(e.args[0].generators) == 1 and \
        not e.args[0].generators[0].is_async and not any(isinstance(x, BINDERS[:5]) for x in ast.walk(e.args[0].elt))


def firsts(fn):
    for b in list(blocks(fn)):
        for i, s in enumerate(b):
            v, e = assigned(s)
            if v is not None and isfirst(e, 2):
                f = first(e, lambda x: [ast.Assign([ast.Name(v, ast.Store())], x, None), ast.Break()])
                f.orelse = [ast.Assign([ast.Name(v, ast.Store())], e.args[1], None)]
                b[i] = fix(f, s)
            elif isinstance(s, ast.Return) and s.value is not None and isfirst(s.value, 2):
                b[i:i + 1] = [fix(first(s.value, lambda x: [ast.Return(x)]), s), fix(ast.Return(s.value.args[1]), s)]
            elif isinstance(s, ast.Try) and len(s.body) == 1 and len(s.handlers) == 1 and not s.finalbody and not s.orelse and \
                    s.handlers[0].type is not None and name(s.handlers[0].type) == "StopIteration" and not s.handlers[0].name:
                v, e = assigned(s.body[0])
                if v is not None and isfirst(e, 1):
                    f = first(e, lambda x: [ast.Assign([ast.Name(v, ast.Store())], x, None), ast.Break()])
                    f.orelse = s.handlers[0].body
                    b[i] = fix(f, s)
                elif isinstance(s.body[0], ast.Return) and s.body[0].value is not None and isfirst(s.body[0].value, 1):
                    b[i:i + 1] = [fix(first(s.body[0].value, lambda x: [ast.Return(x)]), s)] + s.handlers[0].body


def none(e):
    return isinstance(e, ast.Constant) and e.value is None


def found(fn):
    """v = None; for x in S: if C: v = E; break;  if v is None: A else: B   (or the else clause of the loop)
    ->  for x in S: if C: v = E; B; break  else: v = None; A        (an element of S that is None aside)"""
    for b in list(blocks(fn)):
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            i += 1
            if not (isinstance(s, ast.For) and isinstance(t, ast.If) and isinstance(t.test, ast.Compare) and
                    len(t.test.ops) == 1 and isinstance(t.test.ops[0], (ast.Is, ast.IsNot)) and
                    none(t.test.comparators[0]) and name(t.test.left)):
                continue
            v = name(t.test.left)
            body = s.body
            while len(body) == 1 and isinstance(body[0], ast.If) and not body[0].orelse:
                body = body[0].body
            if len(body) != 2 or not isinstance(body[1], ast.Break) or assigned(body[0])[0] != v or none(assigned(body[0])[1]):
                continue
            before = i >= 2 and assigned(b[i - 2])[0] == v and none(assigned(b[i - 2])[1])
            if not (before and not s.orelse or len(s.orelse) == 1 and assigned(s.orelse[0])[0] == v and
                    none(assigned(s.orelse[0])[1])):
                continue
            a, c = (t.body, t.orelse) if isinstance(t.test.ops[0], ast.Is) else (t.orelse, t.body)
            if any(isinstance(x, (ast.Break, ast.Continue)) for y in a + c for x in ast.walk(y)):
                continue
            body[1:1] = c
            s.orelse = s.orelse + a
            del b[i]


def truth(e):
    return e.value if isinstance(e, ast.Constant) and isinstance(e.value, bool) else None


def backwards(e):
    """x[::-1] that is only iterated over"""
    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice) and e.slice.lower is None and e.slice.upper is None and \
            isinstance(e.slice.step, ast.UnaryOp) and isinstance(e.slice.step.op, ast.USub) and \
            isinstance(e.slice.step.operand, ast.Constant) and e.slice.step.operand.value == 1:
        return fix(ast.Call(ast.Name("reversed", ast.Load()), [e.value], []), e)
    return e


class Lookups(ast.NodeTransformer):
    n = 0

    def visit_For(self, n):
        self.generic_visit(n)
        n.iter = backwards(n.iter)
        return n

    def visit_comprehension(self, n):
        self.generic_visit(n)
        n.iter = backwards(n.iter)
        return n

    def visit_Assign(self, n):
        """d = {k: v for k, v in x.items() if k not in ('a', 'b')}  ->  d = x.copy(); d.pop('a', None); d.pop('b', None)"""
        self.generic_visit(n)
        d, c = assigned(n)
        if iscall(c, "dict", 1) and isinstance(c.args[0], ast.GeneratorExp) and isinstance(c.args[0].elt, ast.Tuple) and \
                len(c.args[0].elt.elts) == 2:
            g = c.args[0]
            c = ast.DictComp(g.elt.elts[0], g.elt.elts[1], g.generators)
        if d is None or not isinstance(c, ast.DictComp) or len(c.generators) != 1:
            return n
        g = c.generators[0]
        if not (isinstance(g.target, ast.Tuple) and len(g.target.elts) == 2 and name(c.key) and name(c.value) and
                [name(x, ast.Store) for x in g.target.elts] == [name(c.key), name(c.value)] and
                isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Attribute) and g.iter.func.attr == "items" and
                not g.iter.args and not g.iter.keywords and stable(g.iter.func.value)):
            return n
        gone = []
        for t in g.ifs:
            if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and name(t.left) == name(c.key)):
                return n
            r = t.comparators[0]
            if isinstance(t.ops[0], ast.NotIn) and isinstance(r, (ast.Tuple, ast.List, ast.Set)) and \
                    all(isinstance(x, ast.Constant) for x in r.elts):
                gone += r.elts
            elif isinstance(t.ops[0], ast.NotEq) and isinstance(r, ast.Constant):
                gone.append(r)
            else:
                return n
        cp = ast.Call(ast.Attribute(g.iter.func.value, "copy", ast.Load()), [], [])
        return [fix(ast.Assign([ast.Name(d, ast.Store())], cp, None), n)] + [
            fix(ast.Expr(ast.Call(ast.Attribute(ast.Name(d, ast.Load()), "pop", ast.Load()), [x, ast.Constant(None)], [])), n)
            for x in gone]

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if not (isinstance(f, ast.Name) and f.id in ("list", "set", "tuple", "all", "any", "sorted") or
                isinstance(f, ast.Attribute) and f.attr in ("extend", "update", "join")) or n.keywords or len(n.args) != 1:
            return n
        m = n.args[0]
        if isinstance(m, ast.Call) and iscall(m, "map", 2) and isinstance(m.args[0], (ast.Name, ast.Attribute)) and stable(m.args[0]):
            Lookups.n += 1
            x = "_mapped%d" % Lookups.n
            elt = ast.Call(m.args[0], [ast.Name(x, ast.Load())], [])
            if isinstance(m.args[0], ast.Attribute) and isinstance(m.args[0].value, ast.Name) and m.args[0].value.id == "str":
                elt = ast.Call(ast.Attribute(ast.Name(x, ast.Load()), m.args[0].attr, ast.Load()), [], [])
            gen = [ast.comprehension(ast.Name(x, ast.Store()), m.args[1], [], 0)]
            if isinstance(f, ast.Name) and f.id == "list":
                return fix(ast.ListComp(elt, gen), n)
            n.args[0] = fix(ast.GeneratorExp(elt, gen), m)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        c = membership(n.test)
        if c:
            a, b = (n.body, n.orelse) if c[2] else (n.orelse, n.body)
            r = lookup(c[0], c[1], a, b)
            if r is not None:
                return fix(r, n)
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        c = membership(n.test)
        if c and not c[2] and len(n.body) == 1 and not n.orelse and isinstance(n.body[0], ast.Assign) and \
                len(n.body[0].targets) == 1 and isinstance(n.body[0].targets[0], ast.Subscript) and \
                same_any(n.body[0].targets[0].value, c[1]) and same_any(n.body[0].targets[0].slice, c[0]) and \
                trivial(n.body[0].value):
            return fix(ast.Expr(ast.Call(ast.Attribute(c[1], "setdefault", ast.Load()), [c[0], n.body[0].value], [])), n)
        if c and len(n.body) == 1 and len(n.orelse) == 1:
            a, b = (n.body[0], n.orelse[0]) if c[2] else (n.orelse[0], n.body[0])
            return self.pair(n, a, b, lambda x, y: lookup(c[0], c[1], x, y)) or n
        return n

    def visit_Try(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and len(n.handlers) == 1 and not n.orelse and not n.finalbody and len(n.handlers[0].body) == 1:
            h = n.handlers[0]
            exc = ast.unparse(h.type) if h.type else ""

            def conv(x, y):
                if not trivial(y):
                    return None
                if exc == "AttributeError" and isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name):
                    return ast.Call(ast.Name("getattr", ast.Load()), [x.value, ast.Constant(x.attr), y], [])
                if exc == "KeyError" and isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and \
                        x.value.id != "self":
                    return lookup(x.slice, x.value, x, y)
                if exc == "KeyError" and isinstance(x, ast.Call) and len(x.args) == 1 and isinstance(x.func, ast.Attribute) \
                        and isinstance(x.func.value, ast.Name) and trivial(x.args[0]):
                    return lookup(x.args[0], x.func.value, x, y)
                return None
            r = self.pair(n, n.body[0], h.body[0], conv)
            if r is not None:
                return r
        return self.present(n) or n

    HARMLESS = ("type", "id", "len", "hasattr", "isinstance", "callable", "str", "repr")

    def present(self, n):
        """try: ... m[k] ... except KeyError: ...   ->   if k in m: ... m[k] ... else: ..."""
        h = n.handlers[0] if len(n.handlers) == 1 else None
        if h is None or n.finalbody or h.name or h.type is None or name(h.type) != "KeyError" or \
                any(isinstance(x, ast.Raise) and x.exc is None for s in h.body for x in ast.walk(s)):
            return None
        risky = []
        for i, s in enumerate(n.body):
            if not isinstance(s, (ast.Assign, ast.Return, ast.Expr, ast.Delete, ast.If, ast.Pass)):
                return None
            for x in ast.walk(s):
                if isinstance(x, ast.Subscript) and not isinstance(x.ctx, ast.Store):
                    risky.append((i, s, x.value, x.slice))
                elif isinstance(x, ast.Call):
                    f = x.func
                    if isinstance(f, ast.Name) and f.id in self.HARMLESS or \
                            isinstance(f, ast.Attribute) and f.attr in ("append", "add", "insert") and stable(f.value):
                        continue
                    if isinstance(f, ast.Attribute) and f.attr == "pop" and len(x.args) == 1 and not x.keywords:
                        risky.append((i, s, f.value, x.args[0]))
                        continue
                    return None
                elif isinstance(x, (ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Lambda, ast.ListComp,
                                    ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    return None
        if len(risky) != 1 or risky[0][0] != 0 or isinstance(risky[0][1], ast.If):
            return None
        m, k = risky[0][2:]
        if not stable(m) or name(m) == "self" or not (stable(k) or isinstance(k, ast.Constant) or isinstance(k, ast.Call) and
                               name(k.func) in self.HARMLESS and all(stable(a) for a in k.args) and not k.keywords):
            return None
        return fix(ast.If(ast.Compare(k, [ast.In()], [m]), n.body + n.orelse, h.body), n)

    def pair(self, n, a, b, conv):
        """both statements bind (or return) the same thing"""
        if isinstance(a, ast.Return) and isinstance(b, ast.Return) and a.value is not None and b.value is not None:
            r = conv(a.value, b.value)
            return fix(ast.Return(r), n) if r is not None else None
        x, v = assigned(a)
        y, w = assigned(b)
        if x is not None and x == y:
            r = conv(v, w)
            return fix(ast.Assign([ast.Name(x, ast.Store())], r, None), n) if r is not None else None
        return None


def uses(fn):
    """name -> [loads, stores] in a scope, nested scopes included"""
    out = {}
    for x in ast.walk(fn):
        if isinstance(x, ast.Name):
            c = out.setdefault(x.id, [0, 0])
            c[not isinstance(x.ctx, ast.Load)] += 1
        elif isinstance(x, (ast.Global, ast.Nonlocal)):
            for n in x.names:
                out.setdefault(n, [0, 0])[1] += 100
    return out


def blocks(fn):
    todo = [fn]
    while todo:
        x = todo.pop()
        for f in ("body", "orelse", "finalbody"):
            b = getattr(x, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b
                todo += [s for s in b if not isinstance(s, SCOPES)]
        todo += getattr(x, "handlers", [])


def tidy(fn):
    """remove statements without effect, put single-use aliases where they are used"""
    u = uses(fn)
    argn = {x.arg for f in ast.walk(fn) if isinstance(f, (ast.FunctionDef, ast.Lambda))
            for x in f.args.posonlyargs + f.args.args + f.args.kwonlyargs + [y for y in (f.args.vararg, f.args.kwarg) if y]}
    for b in list(blocks(fn)):
        keep = []
        for i, s in enumerate(b):
            if isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and (
                    isinstance(s.value, ast.Constant) and not (b is fn.body and i == 0) or
                    isinstance(s.value, ast.Name)):
                continue
            a = assigned(s)
            if a and isinstance(a[1], ast.Constant) and u.get(a[0], [1])[0] == 0 and u[a[0]][1] < 100 and \
                    a[0] not in argn:
                continue
            keep.append(s)
        if keep and len(keep) < len(b):
            b[:] = keep
    for b in list(blocks(fn)):
        i = 0
        while i + 1 < len(b):
            a = assigned(b[i])
            if a and chain(a[1]) and u.get(a[0]) == [1, 1] and a[0] not in argn:
                t = Place(a[0], a[1])
                header(b[i + 1], t)
                if t.n:
                    del b[i]
                    i = max(i - 1, 0)
                    continue
            i += 1


def chain(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, ast.Name)


def header(s, t):
    """apply a transformer to the expressions that the statement evaluates once, right away"""
    fields = {ast.If: ("test",), ast.For: ("iter",), ast.With: (), ast.Try: (), ast.While: ()}
    if isinstance(s, SCOPES):
        return
    for f in fields.get(type(s), s._fields):
        v = getattr(s, f)
        if isinstance(v, ast.expr):
            setattr(s, f, t.visit(v))
        elif isinstance(v, list) and f != "targets" or isinstance(s, ast.Assign) and isinstance(v, list):
            setattr(s, f, [t.visit(x) if isinstance(x, ast.expr) else x for x in v])


class Place(ast.NodeTransformer):
    def __init__(self, nm, e):
        self.nm, self.e, self.n = nm, e, 0

    def visit_Name(self, n):
        if n.id == self.nm and isinstance(n.ctx, ast.Load):
            self.n += 1
            return self.e
        return n

    def skip(self, n):
        return n

    visit_Lambda = visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = skip


def scope(fn):
    tidy(fn)
    if not any(isinstance(x, (ast.While, ast.For)) for x in ast.walk(fn)):
        return
    again = True
    while again:
        again = False
        for b in blocks(fn):
            for i, s in enumerate(b):
                u = uses(fn)
                r = None
                if isinstance(s, ast.While) and not s.orelse:
                    r = by_next(b, i, s, u) or by_index(b, i, s, u) or by_pop(b, i, s, u)
                elif isinstance(s, ast.For):
                    r = by_first(b, i, s) or by_range(b, i, s, u, fn) or by_enumerate(b, i, s, u)
                if r:
                    again = True
                    break
            if again:
                break


def name(e, ctx=ast.Load):
    return e.id if isinstance(e, ast.Name) and isinstance(e.ctx, ctx) else None


def assigned(s):
    """(name, value) of a simple assignment"""
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
        return s.targets[0].id, s.value
    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
        return s.target.id, s.value
    return None, None


def definition(b, i, nm):
    """index of the assignment to nm right before position i (trivial statements may lie between)"""
    j = i - 1
    while j >= 0:
        n, v = assigned(b[j])
        if n == nm:
            return j
        if n is None and not isinstance(b[j], ast.Pass):
            return None
        if n is not None and any(isinstance(x, (ast.Call, ast.Attribute, ast.Subscript)) for x in ast.walk(v)):
            return None
        j -= 1
    return None


def iscall(e, f, n=None):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == f and not e.keywords and \
        (n is None or len(e.args) == n)


def true(e):
    return isinstance(e, ast.Constant) and bool(e.value)


def loop(s, target, it, body):
    f = ast.For(target, it, body or [ast.Pass()], [], None)
    ast.copy_location(f, s)
    return ast.fix_missing_locations(f)


def by_first(b, i, s):
    """for x in S: break -> x = next(iter(S), x);   for x in S: return x, return C -> return next(iter(S), C)"""
    if s.orelse or len(s.body) != 1 or not isinstance(s.target, ast.Name):
        return False

    def first(it, els):
        return ast.Call(func=ast.Name("next", ast.Load()), args=[it, els], keywords=[])
    e = s.body[0]
    it = ast.Call(func=ast.Name("iter", ast.Load()), args=[s.iter], keywords=[])
    if isinstance(e, ast.Break):
        new = ast.Assign(targets=[ast.Name(s.target.id, ast.Store())], value=first(it, ast.Name(s.target.id, ast.Load())))
        b[i] = fix(new, s)
        return True
    if isinstance(e, ast.Return) and isinstance(e.value, ast.Name) and e.value.id == s.target.id and i + 1 < len(b) and \
            isinstance(b[i + 1], ast.Return) and (b[i + 1].value is None or isinstance(b[i + 1].value, ast.Constant)):
        new = ast.Return(value=first(it, b[i + 1].value or ast.Constant(value=None)))
        b[i:i + 2] = [fix(new, s)]
        return True
    return False


def by_next(b, i, s, u):
    if not true(s.test) or not s.body or not isinstance(s.body[0], ast.Try):
        return False
    t = s.body[0]
    if len(t.handlers) != 1 or t.finalbody or not t.body:
        return False
    h = t.handlers[0]
    if not (h.type is not None and ast.unparse(h.type) in ("StopIteration", "builtins.StopIteration") and len(h.body) == 1 and
            isinstance(h.body[0], ast.Break)):
        return False
    a = t.body[0]
    if len(t.body) != 1 or not (isinstance(a, ast.Assign) and len(a.targets) == 1 and iscall(a.value, "next", 1)):
        return False
    it = name(a.value.args[0])
    if it is None or u.get(it) != [1, 1]:
        return False
    j = definition(b, i, it)
    if j is None:
        return False
    v = assigned(b[j])[1]
    if not iscall(v, "iter", 1):
        return False
    b[i] = loop(s, a.targets[0], v.args[0], t.orelse + s.body[1:])
    del b[j]
    return True


def same(a, b):
    return ast.dump(a) == ast.dump(b)


def stable(e):
    return all(isinstance(x, (ast.Name, ast.Attribute, ast.expr_context)) for x in ast.walk(e))


def islen(e):
    return e.args[0] if iscall(e, "len", 1) and stable(e.args[0]) else None


def step(s, i):
    """i += 1"""
    if isinstance(s, ast.AugAssign) and name(s.target, ast.Store) == i and isinstance(s.op, ast.Add):
        return isinstance(s.value, ast.Constant) and s.value.value == 1
    n, v = assigned(s)
    return n == i and isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add) and name(v.left) == i and \
        isinstance(v.right, ast.Constant) and v.right.value == 1


def item(s, x, i):
    """T = X[i]: the target"""
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.value, ast.Subscript) and \
            same(s.value.value, x) and name(s.value.slice) == i:
        return s.targets[0]
    return None


def has_continue(body):
    todo = list(body)
    while todo:
        x = todo.pop()
        if isinstance(x, ast.Continue):
            return True
        if isinstance(x, (ast.For, ast.While) + SCOPES):
            continue
        todo += list(ast.iter_child_nodes(x))
    return False


def by_index(b, k, s, u):
    t = s.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
        return False
    if isinstance(t.ops[0], (ast.Lt, ast.NotEq)):
        i, x = name(t.left), islen(t.comparators[0])
    elif isinstance(t.ops[0], ast.Gt):
        i, x = name(t.comparators[0]), islen(t.left)
    else:
        return False
    if i is None or x is None:
        return False
    j = definition(b, k, i)
    if j is None or not (isinstance(assigned(b[j])[1], ast.Constant) and assigned(b[j])[1].value == 0):
        return False
    body = list(s.body)
    tg = item(body[0], x, i) if body else None
    if tg is None:
        return False
    body = body[1:]
    at = [n for n, y in enumerate(body) if step(y, i)]
    if len(at) != 1 or at[0] and has_continue(body[:at[0]]):
        return False
    loads = 3 if isinstance(body[at[0]], ast.Assign) else 2
    if u.get(i, [0, 0])[0] != loads or u[i][1] != 2:
        return False
    del body[at[0]]
    b[k] = loop(s, tg, x, body)
    del b[j]
    return True


class Sub(ast.NodeTransformer):
    def __init__(self, x, i, nm):
        self.x, self.i, self.nm, self.n, self.bad = x, i, nm, 0, False

    def visit_Subscript(self, n):
        if name(n.slice) == self.i and same_any(n.value, self.x):
            if not isinstance(n.ctx, ast.Load):
                self.bad = True
                return n
            self.n += 1
            return ast.copy_location(ast.Name(self.nm, ast.Load()), n)
        self.generic_visit(n)
        return n


def same_any(a, b):
    return ast.unparse(a) == ast.unparse(b)


def by_range(b, k, s, u, fn):
    if not iscall(s.iter, "range", 1) or islen(s.iter.args[0]) is None:
        return False
    i, x = name(s.target, ast.Store), s.iter.args[0].args[0]
    if i is None or u[i][1] != 1:
        return False
    tg = item(s.body[0], x, i)
    if tg is not None and u[i][0] == 1:
        s.target, s.iter, s.body = tg, x, s.body[1:] or [ast.copy_location(ast.Pass(), s)]
        return True
    if tg is not None:
        s.target = ast.copy_location(ast.Tuple([ast.Name(i, ast.Store()), tg], ast.Store()), s)
        s.iter = ast.copy_location(ast.Call(ast.Name("enumerate", ast.Load()), [x], []), s)
        s.body = s.body[1:] or [ast.copy_location(ast.Pass(), s)]
        ast.fix_missing_locations(s)
        return True
    n = u[i][0]
    nm = "item_of_" + ast.unparse(x).replace(".", "_")
    while nm in u:
        nm += "_"
    import copy
    v = Sub(x, i, nm)
    body = [v.visit(copy.deepcopy(y)) for y in s.body]
    if v.bad or v.n != n or any(isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and same_any(
            ast.Name(y.id, ast.Load()), x) for z in body for y in ast.walk(z)):
        return False
    s.target = ast.copy_location(ast.Name(nm, ast.Store()), s)
    s.iter, s.body = x, body
    return True


def by_enumerate(b, k, s, u):
    if not iscall(s.iter, "enumerate", 1) or not (isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2):
        return False
    i = name(s.target.elts[0], ast.Store)
    if i is None or u[i][0]:
        return False
    s.target, s.iter = s.target.elts[1], s.iter.args[0]
    return True


def by_pop(b, k, s, u):
    t = s.test
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Gt) and islen(t.left) is not None and \
            isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value == 0:
        t = t.left.args[0]
    elif iscall(t, "len", 1):
        t = t.args[0]
    q = name(t)
    if q is None or u.get(q) != [2, 1] or not s.body:
        return False
    a = s.body[0]
    if not (isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.value, ast.Call) and
            isinstance(a.value.func, ast.Attribute) and name(a.value.func.value) == q and not a.value.keywords):
        return False
    m, args = a.value.func.attr, a.value.args
    if not (m == "pop" and len(args) == 1 and isinstance(args[0], ast.Constant) and args[0].value == 0 or
            m == "popleft" and not args):
        return False
    j = definition(b, k, q)
    if j is None:
        return False
    v = assigned(b[j])[1]
    if not isinstance(v, ast.Call):
        return False
    b[k] = loop(s, a.targets[0], v, s.body[1:])
    del b[j]
    return True
