"""Rewrites dill's sources without changing behaviour, to see that the checks stay quiet.

  python3 tools/refactor.py OUT TRANSFORM[,TRANSFORM..] [--only file.py:func,...] [--prob P] [--seed N]

Copies /repo to OUT (a scratch directory) and applies the transforms to every function
(or to those chosen).  Not used by any check.
"""
import ast, sys, os, random, shutil, copy, builtins

BUILTINS = set(dir(builtins))


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def has(n, *types, nested=False):
    """does a statement (list) contain a node of the type (not within nested functions)"""
    todo = list(n) if isinstance(n, list) else [n]
    while todo:
        x = todo.pop()
        if isinstance(x, types):
            return True
        for c in ast.iter_child_nodes(x):
            if not nested and isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            todo.append(c)
    return False


def simple(e):
    return isinstance(e, (ast.Name, ast.Constant))


def pure(e):
    return not has(e, ast.Call, ast.Subscript, ast.Attribute, ast.BinOp, ast.Compare, ast.Yield, ast.Await, ast.NamedExpr, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, nested=True)


class Env:
    """one function under rewriting"""
    def __init__(self, mod, fn, rnd, qual):
        self.mod, self.fn, self.rnd, self.qual = mod, fn, rnd, qual
        self.n = 0
        self.used = names(mod) | {a.arg for a in ast.walk(mod) if isinstance(a, ast.arg)} | BUILTINS
        self.new_funcs = []
        self.modnames = module_names(mod)

    def fresh(self, base='tmp'):
        while True:
            self.n += 1
            nm = '%s_%d' % (base, self.n)
            if nm not in self.used:
                self.used.add(nm)
                return nm

    def hit(self):
        return self.rnd.random() < PROB


PROB = 1.0


def module_names(mod):
    out = set()
    todo = list(mod.body)
    while todo:
        s = todo.pop()
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            out.add(s.name)
            continue
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                out.add((a.asname or a.name).split('.')[0])
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
        for c in ast.iter_child_nodes(s):
            if isinstance(c, (ast.stmt, ast.ExceptHandler)):
                todo.append(c)
    return out


def assigned(fn):
    """names bound in the function itself (not nested), params included separately"""
    out = set()
    todo = list(fn.body)
    glob = set()
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            out.add(x.name)
            todo += x.decorator_list
            continue
        if isinstance(x, (ast.Lambda,)):
            continue
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            continue
        if isinstance(x, (ast.Global, ast.Nonlocal)):
            glob |= set(x.names)
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split('.')[0] for a in x.names}
        if isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        todo += list(ast.iter_child_nodes(x))
    return out - glob


def params(fn):
    a = fn.args
    r = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        r.append(a.vararg.arg)
    if a.kwarg:
        r.append(a.kwarg.arg)
    return set(r)


def blocks(fn):
    """every statement list of the function (not nested functions)"""
    todo = [fn]
    while todo:
        x = todo.pop()
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(x, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield x, f, b
                for s in b:
                    if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        todo.append(s)
        for h in getattr(x, 'handlers', []):
            todo.append(h)


def rewrite_blocks(fn, f):
    for owner, field, b in reversed(list(blocks(fn))):  # innermost first
        out = []
        for i, s in enumerate(b):
            r = f(s, owner, field, i)
            out += [s] if r is None else r
        b[:] = out


def isdoc(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str)


def N(i, ctx=None):
    return ast.Name(i, ctx or ast.Load())


def assign(n, v):
    return ast.Assign([ast.Name(n, ast.Store())], v, lineno=0)


# ---- transforms: each f(env) rewrites env.fn in place
def t_identity(e):
    pass


def t_noop(e):
    def f(s, owner, field, i):
        if isdoc(s) and i == 0:
            return [s, ast.Pass()]
        if e.hit():
            k = e.rnd.randrange(4)
            x = [ast.Pass(), ast.Expr(ast.Constant(None)), ast.Expr(ast.Constant(0)), assign(e.fresh('unused'), ast.Constant(None))][k]
            return [x, s]
    rewrite_blocks(e.fn, f)


def t_ret(e):
    """return expr -> r = expr; return r"""
    def f(s, owner, field, i):
        if isinstance(s, ast.Return) and s.value is not None and not simple(s.value) and e.hit():
            r = e.fresh('result')
            return [assign(r, s.value), ast.Return(N(r))]
    rewrite_blocks(e.fn, f)


def neg(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        m = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
        if type(t.ops[0]) in m:
            return ast.Compare(t.left, [m[type(t.ops[0])]()], t.comparators)
    return ast.UnaryOp(ast.Not(), t)


def t_invert(e):
    def f(s, owner, field, i):
        if isinstance(s, ast.If) and s.orelse and e.hit():
            s.test, s.body, s.orelse = neg(s.test), s.orelse, s.body
    rewrite_blocks(e.fn, f)


def t_invertone(e):
    """if c: A  ->  if not c: pass else: A"""
    def f(s, owner, field, i):
        if isinstance(s, ast.If) and not s.orelse and e.hit():
            s.test, s.body, s.orelse = neg(s.test), [ast.Pass()], s.body
    rewrite_blocks(e.fn, f)


def t_splitand(e):
    def f(s, owner, field, i):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and e.hit():
            v = s.test.values
            s.test, s.body = v[0], [ast.If(v[1] if len(v) == 2 else ast.BoolOp(ast.And(), v[1:]), s.body, [])]
    rewrite_blocks(e.fn, f)


def t_mergeif(e):
    def f(s, owner, field, i):
        if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse and e.hit():
            s.test, s.body = ast.BoolOp(ast.And(), [s.test, s.body[0].test]), s.body[0].body
    rewrite_blocks(e.fn, f)


def ends(b):
    s = b[-1]
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    if isinstance(s, ast.If):
        return bool(s.orelse) and ends(s.body) and ends(s.orelse)
    return False


def t_toelse(e):
    """if c: ...return; rest -> if c: ...return else: rest"""
    for owner, field, b in list(blocks(e.fn)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and i + 1 < len(b) and e.hit():
                s.orelse = b[i + 1:]
                del b[i + 1:]
                break


def t_fromelse(e):
    """if c: ...return else: rest -> if c: ...return; rest"""
    def f(s, owner, field, i):
        if isinstance(s, ast.If) and s.orelse and ends(s.body) and e.hit():
            r = s.orelse
            s.orelse = []
            return [s] + r
    rewrite_blocks(e.fn, f)


def t_guard(e):
    """loop/function body ending in 'if c: A' -> 'if not c: continue/return' + A"""
    for owner, field, b in list(blocks(e.fn)):
        s = b[-1]
        if isinstance(s, ast.If) and not s.orelse and field == 'body':
            if isinstance(owner, (ast.For, ast.While)):
                stop = ast.Continue()
            elif owner is e.fn:
                if has(e.fn.body, ast.Yield, ast.YieldFrom):
                    continue
                stop = ast.Return(None)
            else:
                continue
            if e.hit():
                b[-1:] = [ast.If(neg(s.test), [stop], [])] + s.body


def t_ternary(e):
    """x = a if c else b -> if statement"""
    def f(s, owner, field, i):
        v = getattr(s, 'value', None)
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.IfExp) and e.hit():
            a, b = copy.deepcopy(s), copy.deepcopy(s)
            a.value, b.value = v.body, v.orelse
            return [ast.If(v.test, [a], [b])]
    rewrite_blocks(e.fn, f)


def t_toternary(e):
    def f(s, owner, field, i):
        if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and e.hit():
            a, b = s.body[0], s.orelse[0]
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and ast.dump(a.targets[0]) == ast.dump(b.targets[0]) and len(b.targets) == 1:
                return [ast.Assign(a.targets, ast.IfExp(s.test, a.value, b.value), lineno=0)]
            if isinstance(a, ast.Return) and isinstance(b, ast.Return) and a.value and b.value:
                return [ast.Return(ast.IfExp(s.test, a.value, b.value))]
    rewrite_blocks(e.fn, f)


def _loop(e, s, comp, add, init, name):
    acc = e.fresh(name)
    m = {}
    tgts = set()
    for g in comp.generators:
        tgts |= names(g.target)
    # comprehension variables do not leak: rename
    for t in tgts:
        m[t] = e.fresh(t)
    comp = RenameNames(m).visit(copy.deepcopy(comp))
    # the first iterable is evaluated outside
    first = copy.deepcopy(s.value.generators[0].iter)
    comp.generators[0].iter = first
    body = [add(acc, comp)]
    for g in reversed(comp.generators):
        for c in reversed(g.ifs):
            body = [ast.If(c, body, [])]
        body = [ast.For(g.target, g.iter, body, [], lineno=0)]
    s.value = N(acc)
    return [assign(acc, init)] + body + [s]


class RenameNames(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        if n.id in self.m:
            return ast.copy_location(ast.Name(self.m[n.id], n.ctx), n)
        return n

    def visit_FunctionDef(self, n):
        n.name = self.m.get(n.name, n.name)
        # decorators and defaults are evaluated outside
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [d and self.visit(d) for d in n.args.kw_defaults]
        inner = {k: v for k, v in self.m.items() if k not in params(n) and k not in (assigned(n))}
        sub = RenameNames(inner)
        n.body = [sub.visit(s) for s in n.body]
        return n

    def visit_Lambda(self, n):
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        inner = {k: v for k, v in self.m.items() if k not in params(n)}
        n.body = RenameNames(inner).visit(n.body)
        return n

    def visit_ClassDef(self, n):
        n.name = self.m.get(n.name, n.name)
        n.bases = [self.visit(b) for b in n.bases]
        inner = {k: v for k, v in self.m.items() if k not in assigned(n)}
        sub = RenameNames(inner)
        n.body = [sub.visit(s) for s in n.body]
        return n

    def visit_ExceptHandler(self, n):
        if n.name:
            n.name = self.m.get(n.name, n.name)
        self.generic_visit(n)
        return n

    def visit_alias(self, n):
        return n

    def visit_Import(self, n):
        for a in n.names:
            top = (a.asname or a.name).split('.')[0]
            if top in self.m and (a.asname or '.' not in a.name):
                a.asname = self.m[top]
        return n

    def visit_ImportFrom(self, n):
        for a in n.names:
            top = a.asname or a.name
            if top in self.m:
                a.asname = self.m[top]
        return n

    def visit_Nonlocal(self, n):
        n.names = [self.m.get(x, x) for x in n.names]
        return n


def t_comploop(e):
    def f(s, owner, field, i):
        v = getattr(s, 'value', None)
        if not isinstance(s, (ast.Assign, ast.Return)):
            return
        if isinstance(v, ast.ListComp) and e.hit():
            return _loop(e, s, v, lambda a, c: ast.Expr(ast.Call(ast.Attribute(N(a), 'append', ast.Load()), [c.elt], [])), ast.List([], ast.Load()), 'items')
        if isinstance(v, ast.SetComp) and e.hit():
            return _loop(e, s, v, lambda a, c: ast.Expr(ast.Call(ast.Attribute(N(a), 'add', ast.Load()), [c.elt], [])), ast.Call(N('set'), [], []), 'items')
        if isinstance(v, ast.DictComp) and e.hit():
            return _loop(e, s, v, lambda a, c: ast.Assign([ast.Subscript(N(a), c.key, ast.Store())], c.value, lineno=0), ast.Dict([], []), 'items')
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('dict', 'list', 'set', 'tuple') and len(v.args) == 1 and isinstance(v.args[0], ast.GeneratorExp) and not v.keywords and e.hit():
            k = v.func.id
            s.value = v.args[0]
            if k == 'dict':
                if not (isinstance(s.value.elt, ast.Tuple) and len(s.value.elt.elts) == 2):
                    s.value = v
                    return
                return _loop(e, s, s.value, lambda a, c: ast.Assign([ast.Subscript(N(a), c.elt.elts[0], ast.Store())], c.elt.elts[1], lineno=0), ast.Dict([], []), 'items')
            if k == 'set':
                return _loop(e, s, s.value, lambda a, c: ast.Expr(ast.Call(ast.Attribute(N(a), 'add', ast.Load()), [c.elt], [])), ast.Call(N('set'), [], []), 'items')
            r = _loop(e, s, s.value, lambda a, c: ast.Expr(ast.Call(ast.Attribute(N(a), 'append', ast.Load()), [c.elt], [])), ast.List([], ast.Load()), 'items')
            if k == 'tuple':
                s.value = ast.Call(N('tuple'), [s.value], [])
            return r
    rewrite_blocks(e.fn, f)


def t_loopcomp(e):
    """acc = []; for x in xs: [if c:] acc.append(v) -> comprehension"""
    for owner, field, b in list(blocks(e.fn)):
        i = 0
        while i + 1 < len(b):
            a, l = b[i], b[i + 1]
            if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and isinstance(a.value, ast.List) and not a.value.elts and isinstance(l, ast.For) and not l.orelse and len(l.body) == 1:
                s, conds = l.body[0], []
                while isinstance(s, ast.If) and not s.orelse and len(s.body) == 1:
                    conds.append(s.test)
                    s = s.body[0]
                nm = a.targets[0].id
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == 'append' and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == nm and nm not in names(s.value.args[0]) and e.hit():
                    b[i:i + 2] = [assign(nm, ast.ListComp(s.value.args[0], [ast.comprehension(l.target, l.iter, conds, 0)]))]
            i += 1


def t_while(e):
    """for x in xs: body -> iterator with next in a while loop"""
    def f(s, owner, field, i):
        if isinstance(s, ast.For) and not s.orelse and e.hit():
            it = e.fresh('it')
            nxt = ast.Try([ast.Assign([s.target], ast.Call(N('next'), [N(it)], []), lineno=0)], [ast.ExceptHandler(N('StopIteration'), None, [ast.Break()])], [], [])
            return [assign(it, ast.Call(N('iter'), [s.iter], [])), ast.While(ast.Constant(True), [nxt] + s.body, [])]
    rewrite_blocks(e.fn, f)


def t_whilenext(e):
    """for x in xs -> index loop over list(xs) (xs not changed in the loop: only for literal tuples/lists)"""
    def f(s, owner, field, i):
        if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, (ast.Tuple, ast.List)) and e.hit():
            it, k = e.fresh('seq'), e.fresh('i')
            return [assign(it, s.iter), ast.For(N(k, ast.Store()), ast.Call(N('range'), [ast.Call(N('len'), [N(it)], [])], []), [ast.Assign([s.target], ast.Subscript(N(it), N(k), ast.Load()), lineno=0)] + s.body, [], lineno=0)]
    rewrite_blocks(e.fn, f)


def _loads(e, nm):
    return sum(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(e.fn))


def t_index(e):
    """for x in <name> -> for i in range(len(name)): x = name[i]  (lists: after list())"""
    def f(s, owner, field, i):
        if isinstance(s, ast.For) and e.hit():
            q, k = e.fresh('seq'), e.fresh('i')
            v = s.iter
            return [assign(q, ast.Call(N('list'), [v], [])), ast.For(N(k, ast.Store()), ast.Call(N('range'), [ast.Call(N('len'), [N(q)], [])], []), [ast.Assign([s.target], ast.Subscript(N(q), N(k), ast.Load()), lineno=0)] + s.body, s.orelse, lineno=0)]
    rewrite_blocks(e.fn, f)


def t_windex(e):
    def f(s, owner, field, i):
        if isinstance(s, ast.For) and not s.orelse and e.hit():
            q, k = e.fresh('seq'), e.fresh('i')
            v = s.iter
            return [assign(q, ast.Call(N('list'), [v], [])), assign(k, ast.Constant(0)), ast.While(ast.Compare(N(k), [ast.Lt()], [ast.Call(N('len'), [N(q)], [])]), [ast.Assign([s.target], ast.Subscript(N(q), N(k), ast.Load()), lineno=0), ast.AugAssign(N(k, ast.Store()), ast.Add(), ast.Constant(1))] + s.body, [])]
    rewrite_blocks(e.fn, f)


def t_popleft(e):
    def f(s, owner, field, i):
        if isinstance(s, ast.For) and not s.orelse and e.hit():
            q = e.fresh('todo')
            return [assign(q, ast.Call(N('list'), [s.iter], [])), ast.While(N(q), [ast.Assign([s.target], ast.Call(ast.Attribute(N(q), 'pop', ast.Load()), [ast.Constant(0)], []), lineno=0)] + s.body, [])]
    rewrite_blocks(e.fn, f)


def t_enum(e):
    def f(s, owner, field, i):
        if isinstance(s, ast.For) and e.hit():
            s.iter = ast.Call(N('enumerate'), [s.iter], [])
            s.target = ast.Tuple([N(e.fresh('i'), ast.Store()), s.target], ast.Store())
    rewrite_blocks(e.fn, f)


def t_iter(e):
    """for x in expr -> seq = expr; for x in seq"""
    def f(s, owner, field, i):
        if isinstance(s, ast.For) and not simple(s.iter) and e.hit():
            q = e.fresh('seq')
            v = s.iter
            s.iter = N(q)
            return [assign(q, v), s]
    rewrite_blocks(e.fn, f)


def t_cond(e):
    """if expr -> flag = expr; if flag (not elif)"""
    def f(s, owner, field, i):
        if isinstance(s, ast.If) and not simple(s.test) and e.hit():
            q = e.fresh('flag')
            v = s.test
            s.test = N(q)
            return [assign(q, v), s]
    rewrite_blocks(e.fn, f)


def t_args(e):
    """hoist the arguments of the outer call of a statement"""
    def f(s, owner, field, i):
        if not isinstance(s, (ast.Expr, ast.Assign, ast.Return)) or not isinstance(s.value, ast.Call) or not e.hit():
            return
        c = s.value
        if isinstance(c.func, ast.Name) and c.func.id in ('locals', 'globals', 'super', 'exec', 'eval'):
            return
        if any(isinstance(a, ast.Starred) for a in c.args):
            return
        if not (isinstance(c.func, ast.Name) or isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name)):
            return
        out = []
        for holder, key in [(c.args, k) for k in range(len(c.args))] + [(k, 'value') for k in c.keywords]:
            v = holder[key] if isinstance(holder, list) else getattr(holder, key)
            if simple(v) or isinstance(v, ast.Lambda):
                continue
            q = e.fresh('arg')
            out.append(assign(q, v))
            if isinstance(holder, list):
                holder[key] = N(q)
            else:
                holder.value = N(q)
        return out + [s]
    rewrite_blocks(e.fn, f)


def t_recv(e):
    """a.b.c(...) -> x = a.b; x.c(...)"""
    def f(s, owner, field, i):
        if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and not simple(s.value.func.value) and e.hit():
            v = s.value.func.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super':
                return
            q = e.fresh('recv')
            s.value.func.value = N(q)
            return [assign(q, v), s]
    rewrite_blocks(e.fn, f)


def t_method(e):
    """x.m(...) -> call = x.m; call(...)"""
    def f(s, owner, field, i):
        if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and e.hit():
            q = e.fresh('call')
            v = s.value.func
            s.value.func = N(q)
            return [assign(q, v), s]
    rewrite_blocks(e.fn, f)


def t_withcm(e):
    def f(s, owner, field, i):
        if isinstance(s, ast.With) and len(s.items) == 1 and not simple(s.items[0].context_expr) and e.hit():
            q = e.fresh('cm')
            v = s.items[0].context_expr
            s.items[0].context_expr = N(q)
            return [assign(q, v), s]
    rewrite_blocks(e.fn, f)


def t_demorgan(e):
    class V(ast.NodeTransformer):
        def visit_FunctionDef(self, n):
            return n
        visit_Lambda = visit_ClassDef = visit_FunctionDef
    def g(t):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and isinstance(t.operand, ast.BoolOp):
            b = t.operand
            return ast.BoolOp(ast.And() if isinstance(b.op, ast.Or) else ast.Or(), [neg(v) for v in b.values])
        if isinstance(t, ast.BoolOp):
            return ast.UnaryOp(ast.Not(), ast.BoolOp(ast.And() if isinstance(t.op, ast.Or) else ast.Or(), [neg(v) for v in t.values]))
        return t
    def f(s, owner, field, i):
        if isinstance(s, (ast.If, ast.While)) and e.hit():
            s.test = g(s.test)
    rewrite_blocks(e.fn, f)


def t_yoda(e):
    """x is None -> None is x ; a == const -> const == a"""
    class V(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)) and e.hit():
                n.left, n.comparators = n.comparators[0], [n.left]
            elif len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and e.hit():
                if isinstance(n.ops[0], ast.NotIn):
                    return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.In()], n.comparators))
            return n
    for s in e.fn.body:
        V().visit(s)


def t_aug(e):
    def f(s, owner, field, i):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, (ast.Add, ast.Sub)) and e.hit():
            if isinstance(s.value, (ast.List, ast.ListComp)) or has(s.value, ast.Call):
                return
            return [assign(s.target.id, ast.BinOp(N(s.target.id), s.op, s.value))]
    rewrite_blocks(e.fn, f)


def t_tuple(e):
    def f(s, owner, field, i):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and len(s.targets[0].elts) == len(s.value.elts) and e.hit():
            if any(isinstance(x, ast.Starred) for x in s.targets[0].elts + s.value.elts):
                return
            qs = [e.fresh('t') for _ in s.value.elts]
            return [assign(q, v) for q, v in zip(qs, s.value.elts)] + [ast.Assign([t], N(q), lineno=0) for t, q in zip(s.targets[0].elts, qs)]
    rewrite_blocks(e.fn, f)


def t_chain(e):
    """a = b = v -> b = v; a = b  (names)"""
    def f(s, owner, field, i):
        if isinstance(s, ast.Assign) and len(s.targets) > 1 and e.hit():
            q = e.fresh('v')
            return [assign(q, s.value)] + [ast.Assign([t], N(q), lineno=0) for t in s.targets]
    rewrite_blocks(e.fn, f)


def t_literals(e):
    class V(ast.NodeTransformer):
        def visit_FunctionDef(self, n):
            return n
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id == 'dict' and not n.args and all(k.arg for k in n.keywords) and e.hit():
                return ast.Dict([ast.Constant(k.arg) for k in n.keywords], [k.value for k in n.keywords])
            if isinstance(n.func, ast.Name) and n.func.id == 'list' and not n.args and not n.keywords:
                return ast.List([], ast.Load())
            if isinstance(n.func, ast.Name) and n.func.id == 'tuple' and not n.args and not n.keywords:
                return ast.Tuple([], ast.Load())
            return n
        def visit_Dict(self, n):
            self.generic_visit(n)
            if all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() for k in n.keys) and e.hit():
                return ast.Call(N('dict'), [], [ast.keyword(k.value, v) for k, v in zip(n.keys, n.values)])
            return n
    e.fn.body = [V().visit(s) for s in e.fn.body]


def t_fstring(e):
    class V(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) and e.hit():
                parts = n.left.value.split('%s')
                if any('%' in p for p in parts):
                    return n
                if isinstance(n.right, ast.Tuple):
                    vals = n.right.elts
                elif len(parts) == 2 and isinstance(n.right, (ast.Attribute,)) :
                    vals = [n.right]
                else:
                    return n
                if len(vals) != len(parts) - 1:
                    return n
                out = []
                for i, p in enumerate(parts):
                    if p:
                        out.append(ast.Constant(p))
                    if i < len(vals):
                        out.append(ast.FormattedValue(vals[i], 115, None))
                return ast.JoinedStr(out)
            return n
    e.fn.body = [V().visit(s) for s in e.fn.body]


def t_unf(e):
    """f-strings -> format"""
    class V(ast.NodeTransformer):
        def visit_JoinedStr(self, n):
            self.generic_visit(n)
            if any(isinstance(v, ast.FormattedValue) and (v.conversion not in (-1, 115) or v.format_spec) for v in n.values):
                return n
            s, a = '', []
            for v in n.values:
                if isinstance(v, ast.Constant):
                    s += v.value.replace('{', '{{').replace('}', '}}')
                else:
                    s += '{}' if v.conversion == -1 else '{!s}'
                    a.append(v.value)
            return ast.Call(ast.Attribute(ast.Constant(s), 'format', ast.Load()), a, [])
    e.fn.body = [V().visit(s) for s in e.fn.body]


def t_rename(e):
    fn = e.fn
    loc = assigned(fn) - params(fn)
    if has(fn.body, ast.Global) or {'locals', 'exec', 'eval', 'vars'} & names(fn):
        return
    # not functions or imports with dots
    skip = {s.name for s in ast.walk(fn) if isinstance(s, (ast.FunctionDef, ast.ClassDef))}
    for s in ast.walk(fn):
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            skip |= {(a.asname or a.name).split('.')[0] for a in s.names}
    m = {n: e.fresh(n + '_v') for n in sorted(loc - skip) if e.hit()}
    r = RenameNames(m)
    fn.body = [r.visit(s) for s in fn.body]


def t_renameparam(e):
    """rename the positional-only-looking first parameters of private helpers? only of handlers (pickler, obj)"""
    fn = e.fn
    if len(fn.args.args) == 2 and fn.args.args[0].arg == 'pickler' and fn.args.args[1].arg == 'obj':
        m = {'pickler': 'pkl', 'obj': 'target'}
        if m['pkl' and 'pickler'] in names(fn) or 'target' in names(fn):
            return
        for a in fn.args.args:
            a.arg = m[a.arg]
        r = RenameNames(m)
        fn.body = [r.visit(s) for s in fn.body]


def t_swap(e):
    """swap neighbouring independent assignments"""
    def indep(a, b):
        if not (isinstance(a, ast.Assign) and isinstance(b, ast.Assign)):
            return False
        if not all(len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) for x in (a, b)):
            return False
        if a.targets[0].id == b.targets[0].id or a.targets[0].id in names(b.value) or b.targets[0].id in names(a.value):
            return False
        return pure(a.value) or pure(b.value)
    for owner, field, b in list(blocks(e.fn)):
        i = 0
        while i + 1 < len(b):
            if indep(b[i], b[i + 1]) and e.hit():
                b[i], b[i + 1] = b[i + 1], b[i]
                i += 1
            i += 1


def _free(stmts_or_expr, local):
    ns = [stmts_or_expr] if isinstance(stmts_or_expr, ast.AST) else stmts_or_expr
    out = set()
    for n in ns:
        out |= names(n, ast.Load) | {x.target.id for x in ast.walk(n) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
        out |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Del)}
    loads = {}
    comp = set()
    for n in ns:
        for x in ast.walk(n):
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for g in x.generators:
                    comp |= names(g.target)
    return sorted((out - comp) & local)


def _localnames(e):
    return (assigned(e.fn) | params(e.fn) | e.outer)


def t_exprhelper(e):
    """extract the value of a return/assignment/condition to a new module-level function"""
    def ok(v):
        if simple(v) or has(v, ast.Lambda, ast.Yield, ast.YieldFrom, ast.NamedExpr, nested=True):
            return False
        if {'locals', 'globals', 'super', 'exec', 'eval', 'vars', '__class__'} & names(v):
            return False
        if not has(v, ast.Call, ast.Compare, ast.BoolOp, ast.Subscript, ast.Attribute):
            return False
        return True
    done = [0]
    def f(s, owner, field, i):
        fld = 'value' if isinstance(s, (ast.Return, ast.Assign)) else 'test' if isinstance(s, ast.If) else 'iter' if isinstance(s, ast.For) else None
        v = fld and getattr(s, fld)
        if v is None or not ok(v) or not e.hit():
            return
        fr = _free(v, _localnames(e))
        name = e.fresh('_' + e.fn.name.strip('_') + '_part')
        e.new_funcs.append(ast.FunctionDef(name, ast.arguments([], [ast.arg(x) for x in fr], None, [], [], None, []), [ast.Return(v)], [], lineno=0, type_params=[]))
        setattr(s, fld, ast.Call(N(name), [N(x) for x in fr], []))
    rewrite_blocks(e.fn, f)


def definitely(stmts):
    """names surely bound after the statements"""
    out = set()
    for s in stmts:
        if isinstance(s, ast.Assign):
            for t in s.targets:
                out |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            out.add(s.name)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split('.')[0] for a in s.names}
        elif isinstance(s, ast.If):
            if s.orelse:
                out |= definitely(s.body) & definitely(s.orelse)
        elif isinstance(s, ast.With):
            out |= definitely(s.body)
    return out


def t_blockhelper(e):
    """extract the body of an if/for/with/try to a new module-level function"""
    fn = e.fn
    if has(fn.body, ast.Global, ast.Nonlocal) or {'locals', 'super', '__class__', 'exec', 'eval'} & names(fn):
        return
    inner_funcs = [x for x in ast.walk(fn) if x is not fn and isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef))]
    captured = set()
    for x in inner_funcs:
        captured |= names(x)
    for owner, field, b in list(blocks(fn)):
        if owner is fn or isinstance(owner, ast.ExceptHandler) and field != 'body':
            continue
        if not e.hit() or has(b, ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.Import, ast.ImportFrom, ast.Delete) or any(isinstance(s, (ast.FunctionDef, ast.ClassDef)) for s in b):
            continue
        if len(b) == 1 and any(g.name in names(b[0]) for g in e.new_funcs) or len(b) == 1 and isinstance(b[0], (ast.Pass, ast.Raise)) or has(b, ast.Lambda, nested=True):
            continue
        if has(b, ast.Raise) and isinstance(owner, ast.ExceptHandler):
            continue
        local = _localnames(e)
        wrap = ast.Module(b, [])
        st = {x.id for s in b for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store,))} | {h.name for s in b for h in ast.walk(s) if isinstance(h, ast.ExceptHandler) and h.name}
        comp = set()
        for s in b:
            for c in ast.walk(s):
                if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    for g in c.generators:
                        comp |= names(g.target)
        st -= comp - assigned(fn)
        if st & captured:
            continue
        if st - definitely(b):
            continue
        fr = _free(b, local)
        # names read before being written would be params; names only written are not
        fr = [x for x in fr if x not in st or _read_first(b, x)]
        if [x for x in fr if x in st] and True:
            pass
        name = e.fresh('_' + fn.name.strip('_') + '_block')
        outs = sorted(st & local)
        body = copy.deepcopy(b)
        new = [ast.Call(N(name), [N(x) for x in fr], [])]
        if outs:
            body.append(ast.Return(N(outs[0]) if len(outs) == 1 else ast.Tuple([N(x) for x in outs], ast.Load())))
            call = ast.Assign([N(outs[0], ast.Store()) if len(outs) == 1 else ast.Tuple([N(x, ast.Store()) for x in outs], ast.Store())], new[0], lineno=0)
        else:
            call = ast.Expr(new[0])
        e.new_funcs.append(ast.FunctionDef(name, ast.arguments([], [ast.arg(x) for x in fr], None, [], [], None, []), body, [], lineno=0, type_params=[]))
        b[:] = [call]
        return t_blockhelper(e) if PROB >= 1 else None


def _live(stmts, out):
    """names read before they are bound in the statements, given those live after them"""
    live = set(out)
    for s in reversed(stmts):
        if isinstance(s, ast.Assign):
            st = set()
            for t in s.targets:
                st |= names(t, ast.Store)
            live = (live - st) | names(s.value)
            for t in s.targets:
                live |= names(t, ast.Load)
        elif isinstance(s, ast.If):
            live = names(s.test) | _live(s.body, live) | _live(s.orelse, live)
        elif isinstance(s, ast.With):
            st = set()
            for i in s.items:
                if i.optional_vars:
                    st |= names(i.optional_vars, ast.Store)
            live = _live(s.body, live) - st
            for i in s.items:
                live |= names(i.context_expr)
        elif isinstance(s, ast.For):
            b = _live(s.body, live)
            b = _live(s.body, live | b) - names(s.target, ast.Store)
            live = live | b | _live(s.orelse, live) | names(s.iter)
        elif isinstance(s, ast.While):
            live = live | names(s.test) | _live(s.body, live | names(s.test))
        elif isinstance(s, ast.Try):
            h = set()
            for x in s.handlers:
                h |= _live(x.body, live) - {x.name}
                if x.type:
                    h |= names(x.type)
            live = _live(s.body, _live(s.orelse, live)) | h | _live(s.finalbody, set())
        elif isinstance(s, (ast.Raise, ast.Return)):
            live = names(s)
        else:
            live |= names(s, ast.Load)
            if isinstance(s, ast.AugAssign):
                live |= names(s.target)
    return live


def _read_first(b, x):
    return x in _live(b, set())


def t_wholehelper(e):
    """move the whole body of a function to a helper and call it"""
    fn = e.fn
    if e.nested or {'super', 'locals', '__class__'} & names(fn) or has(fn.body, ast.Yield, ast.YieldFrom) or fn.decorator_list and not all(isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'register' for d in fn.decorator_list):
        return
    if e.incls or fn.name in ('_main_modified',):
        return
    doc = [fn.body[0]] if isdoc(fn.body[0]) else []
    body = fn.body[len(doc):]
    if not body or len(body) == 1 and isinstance(body[0], ast.Pass):
        return
    name = e.fresh('_' + fn.name.strip('_') + '_impl')
    a = fn.args
    args = [ast.arg(x.arg) for x in a.posonlyargs + a.args + a.kwonlyargs]
    call = [N(x.arg) for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        args.append(ast.arg(a.vararg.arg)); call.append(N(a.vararg.arg))
    if a.kwarg:
        args.append(ast.arg(a.kwarg.arg)); call.append(N(a.kwarg.arg))
    e.new_funcs.append(ast.FunctionDef(name, ast.arguments([], args, None, [], [], None, []), body, [], lineno=0, type_params=[]))
    fn.body = doc + [ast.Return(ast.Call(N(name), call, []))]


def t_importalias(e):
    """function-level imports get another name"""
    fn = e.fn
    if {'locals', 'exec', 'eval', 'vars'} & names(fn) or has(fn.body, ast.Global):
        return
    m = {}
    for s in ast.walk(fn):
        if isinstance(s, ast.Import):
            for a in s.names:
                if '.' not in a.name:
                    m.setdefault(a.asname or a.name, e.fresh('_' + a.name))
        elif isinstance(s, ast.ImportFrom):
            for a in s.names:
                if a.name != '*':
                    m.setdefault(a.asname or a.name, e.fresh('_' + a.name))
    if m:
        r = RenameNames(m)
        fn.body = [r.visit(s) for s in fn.body]


def t_elsetry(e):
    """try: a except: (ends) else: b -> try: a except: .. ; b"""
    for owner, field, b in list(blocks(e.fn)):
        for i, s in enumerate(b):
            if isinstance(s, ast.Try) and s.orelse and not s.finalbody and all(ends(h.body) for h in s.handlers) and e.hit():
                r = s.orelse
                s.orelse = []
                b[i + 1:i + 1] = r
                break


def t_annot(e):
    """x = v -> x: object = v"""
    def f(s, owner, field, i):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and e.hit() and not has(e.fn.body, ast.Global, ast.Nonlocal):
            return [ast.AnnAssign(s.targets[0], N('object'), s.value, 1)]
    rewrite_blocks(e.fn, f)


def t_walrus(e):
    """x = v; if x...: -> if (x := v)"""
    for owner, field, b in list(blocks(e.fn)):
        i = 0
        while i + 1 < len(b):
            a, s = b[i], b[i + 1]
            if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and isinstance(s, ast.If):
                x = a.targets[0].id
                t = s.test
                w = ast.NamedExpr(N(x, ast.Store()), a.value)
                if isinstance(t, ast.Name) and t.id == x and e.hit():
                    s.test = w
                    del b[i]
                    continue
                if isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == x and e.hit():
                    t.left = w
                    del b[i]
                    continue
                if isinstance(t, ast.UnaryOp) and isinstance(t.operand, ast.Name) and t.operand.id == x and e.hit():
                    t.operand = w
                    del b[i]
                    continue
            i += 1


def t_inline(e):
    """x = v; return x  (or single next-statement use) -> inlined"""
    fn = e.fn
    if {'locals', 'exec', 'eval'} & names(fn):
        return
    cap = set()
    for x in ast.walk(fn):
        if x is not fn and isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            cap |= names(x)
    count = {}
    for x in ast.walk(fn):
        if isinstance(x, ast.Name):
            count[x.id, type(x.ctx)] = count.get((x.id, type(x.ctx)), 0) + 1
    for owner, field, b in list(blocks(fn)):
        i = 0
        while i + 1 < len(b):
            a, s = b[i], b[i + 1]
            if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name):
                x = a.targets[0].id
                if x not in cap and count.get((x, ast.Load)) == 1 and count.get((x, ast.Store)) == 1:
                    v = getattr(s, 'value', None)
                    if isinstance(s, ast.Return) and isinstance(v, ast.Name) and v.id == x and e.hit():
                        b[i:i + 2] = [ast.Return(a.value)]
                        continue
                    if isinstance(s, ast.For) and isinstance(s.iter, ast.Name) and s.iter.id == x and e.hit():
                        s.iter = a.value
                        del b[i]
                        continue
                    if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and isinstance(v, ast.Call) and v.args and isinstance(v.args[0], ast.Name) and v.args[0].id == x and isinstance(v.func, ast.Name) and e.hit():
                        v.args[0] = a.value
                        del b[i]
                        continue
            i += 1


def t_lambdadef(e):
    """lambda in an assignment / call argument of a simple statement -> local def"""
    def f(s, owner, field, i):
        if not isinstance(s, (ast.Assign, ast.Expr, ast.Return)) or s.value is None:
            return
        out = []
        class V(ast.NodeTransformer):
            def visit_Lambda(self, n):
                nm = e.fresh('func')
                out.append(ast.FunctionDef(nm, n.args, [ast.Return(n.body)], [], lineno=0, type_params=[]))
                return N(nm)
            def visit_ListComp(self, n):
                return n
            visit_GeneratorExp = visit_DictComp = visit_SetComp = visit_ListComp
        if e.hit():
            s.value = V().visit(s.value)
        return out + [s]
    rewrite_blocks(e.fn, f)


def t_isor(e):
    """isinstance(x, (A, B)) -> isinstance(x, A) or isinstance(x, B); x in (a, b) -> x == a or x == b (constants)"""
    class V(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id in ('isinstance', 'issubclass') and isinstance(n.args[1], ast.Tuple) and simple(n.args[0]) and e.hit():
                return ast.BoolOp(ast.Or(), [ast.Call(n.func, [n.args[0], t], []) for t in n.args[1].elts])
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('startswith', 'endswith') and n.args and isinstance(n.args[0], ast.Tuple) and simple(n.func.value) and e.hit():
                return ast.BoolOp(ast.Or(), [ast.Call(n.func, [t], []) for t in n.args[0].elts])
            return n
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.Tuple, ast.List, ast.Set)) and simple(n.left) and all(isinstance(x, ast.Constant) for x in n.comparators[0].elts) and e.hit():
                r = ast.BoolOp(ast.Or(), [ast.Compare(n.left, [ast.Eq()], [x]) for x in n.comparators[0].elts])
                if len(n.comparators[0].elts) == 1:
                    r = r.values[0]
                return r if isinstance(n.ops[0], ast.In) else ast.UnaryOp(ast.Not(), r)
            return n
    e.fn.body = [V().visit(x) for x in e.fn.body]


def t_getin(e):
    """x = d.get(k, v) / d.pop(k, v) with simple operands -> if k in d: .. else: .."""
    def f(s, owner, field, i):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ('get', 'pop') and len(s.value.args) == 2 and simple(s.value.args[0]) and isinstance(s.value.func.value, ast.Name) and e.hit():
            d, (k, v) = s.value.func.value, s.value.args
            a, b = copy.deepcopy(s), copy.deepcopy(s)
            a.value = ast.Subscript(d, k, ast.Load()) if s.value.func.attr == 'get' else ast.Call(ast.Attribute(d, 'pop', ast.Load()), [k], [])
            b.value = v
            return [ast.If(ast.Compare(k, [ast.In()], [d]), [a], [b])]
    rewrite_blocks(e.fn, f)


def t_hastry(e):
    """x = getattr(o, 'n', d) (d simple) -> try: x = o.n except AttributeError: x = d"""
    def f(s, owner, field, i):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == 'getattr' and len(s.value.args) == 3 and isinstance(s.value.args[1], ast.Constant) and simple(s.value.args[2]) and simple(s.value.args[0]) and e.hit():
            a, b = copy.deepcopy(s), copy.deepcopy(s)
            a.value = ast.Attribute(s.value.args[0], s.value.args[1].value, ast.Load())
            b.value = s.value.args[2]
            return [ast.Try([a], [ast.ExceptHandler(N('AttributeError'), None, [b])], [], [])]
    rewrite_blocks(e.fn, f)


def t_kwargs(e):
    """positional arguments of known module functions become keywords"""
    sig = {}
    for s in ast.walk(e.mod):
        if isinstance(s, ast.FunctionDef) and s in e.mod.body and not s.args.posonlyargs and not s.args.vararg:
            sig[s.name] = [a.arg for a in s.args.args] if s.name not in sig else None
    shadow = assigned(e.fn) | params(e.fn) | e.outer
    class V(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id not in shadow and sig.get(n.func.id) and not any(isinstance(a, ast.Starred) for a in n.args) and len(n.args) <= len(sig[n.func.id]) and len(n.args) > 1 and e.hit():
                k = n.args[1:]
                n.keywords = [ast.keyword(p, v) for p, v in zip(sig[n.func.id][1:], k)] + n.keywords
                n.args = n.args[:1]
            return n
    e.fn.body = [V().visit(x) for x in e.fn.body]


def t_alias(e):
    """attribute chains read several times get a local alias at their first statement (names of modules only)"""
    fn = e.fn
    if has(fn.body, ast.Global, ast.Nonlocal) or e.nested:
        return
    loc = _localnames(e)
    glob = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in e.modnames and x.id not in loc and x.id.startswith('_create')]
    m = {}
    for g in glob:
        m.setdefault(g.id, e.fresh('fn'))
    if not m:
        return
    r = RenameNames(m)
    fn.body = [r.visit(s) for s in fn.body]
    at = 1 if isdoc(fn.body[0]) else 0
    fn.body[at:at] = [assign(v, N(k)) for k, v in m.items()]


def t_orderswap(e):
    """swap any neighbouring statements that touch disjoint names and make no calls"""
    def rw(s):
        if not isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr)) or has(s, ast.Call, ast.Yield, ast.NamedExpr, nested=True):
            return None
        st = names(s, ast.Store)
        if any(isinstance(t, (ast.Subscript, ast.Attribute)) for t in getattr(s, 'targets', [getattr(s, 'target', None)])):
            return None
        return st, names(s, ast.Load)
    for owner, field, b in list(blocks(e.fn)):
        i = 1 if isdoc(b[0]) else 0
        while i + 1 < len(b):
            x, y = rw(b[i]), rw(b[i + 1])
            if x and y and not (x[0] & (y[0] | y[1]) or y[0] & x[1]) and e.hit():
                b[i], b[i + 1] = b[i + 1], b[i]
                i += 1
            i += 1


def _swallow(h):
    return len(h.body) == 1 and isinstance(h.body[0], ast.Pass) and h.type is not None and not h.name


def t_suppress(e):
    """try: a except X: pass -> with contextlib.suppress(X): a"""
    done = []
    def f(s, owner, field, i):
        if isinstance(s, ast.Try) and not s.orelse and not s.finalbody and len(s.handlers) == 1 and _swallow(s.handlers[0]) and e.hit():
            t = s.handlers[0].type
            done.append(1)
            return [ast.With([ast.withitem(ast.Call(ast.Attribute(N('contextlib'), 'suppress', ast.Load()), list(t.elts) if isinstance(t, ast.Tuple) else [t], []), None)], s.body, lineno=0)]
    rewrite_blocks(e.fn, f)
    if done:
        k = 1 if isdoc(e.fn.body[0]) else 0
        e.fn.body.insert(k, ast.Import([ast.alias('contextlib')]))


def t_anyloop(e):
    """any(..)/all(..) of a generator, first thing a statement evaluates -> loop with a flag and a break"""
    def first(x):
        while True:
            if isinstance(x, ast.BoolOp):
                x = x.values[0]
            elif isinstance(x, ast.UnaryOp):
                x = x.operand
            else:
                return x
    def f(s, owner, field, i):
        if isinstance(s, (ast.Return, ast.Assign)) and s.value is not None:
            x = first(s.value)
        elif isinstance(s, ast.If) and not (field == 'orelse' and len(getattr(owner, field)) == 1):
            x = first(s.test)
        else:
            return
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('any', 'all') and len(x.args) == 1 and isinstance(x.args[0], (ast.GeneratorExp, ast.ListComp)) and len(x.args[0].generators) == 1 and e.hit():
            g = x.args[0].generators[0]
            isany = x.func.id == 'any'
            fl = e.fresh('found')
            m = {n: e.fresh(n) for n in names(g.target)}
            r = RenameNames(m)
            test = r.visit(copy.deepcopy(x.args[0].elt))
            if not isany:
                test = ast.UnaryOp(ast.Not(), test)
            body = [ast.If(test, [assign(fl, ast.Constant(isany)), ast.Break()], [])]
            for c in reversed(g.ifs):
                body = [ast.If(r.visit(copy.deepcopy(c)), body, [])]
            loop = ast.For(r.visit(copy.deepcopy(g.target)), g.iter, body, [], lineno=0)
            x.func, x.args = N('bool'), [N(fl)]
            return [assign(fl, ast.Constant(not isany)), loop, s]
    rewrite_blocks(e.fn, f)


def t_constname(e):
    """literals of a function become module-level constants"""
    class V(ast.NodeTransformer):
        def visit_JoinedStr(self, n):
            return n
        def visit_Constant(self, n):
            if isinstance(n.value, (str, int, bytes)) and not isinstance(n.value, bool) and n.value not in (0, 1, -1, '') and e.hit():
                nm = e.fresh('_CONST')
                e.new_funcs.append(assign(nm, ast.Constant(n.value)))
                return N(nm)
            return n
        def visit_MatchValue(self, n):
            return n
        def visit_FunctionDef(self, n):
            n.body = [self.visit(x) if not isdoc(x) else x for x in n.body]
            return n
    if not e.nested:
        e.fn.body = [V().visit(s) if not isdoc(s) else s for s in e.fn.body]


def t_splitexcept(e):
    """except (A, B): body -> except A: body / except B: body"""
    for x in ast.walk(e.fn):
        if isinstance(x, ast.Try):
            hs = []
            for h in x.handlers:
                if isinstance(h.type, ast.Tuple) and e.hit():
                    hs += [ast.ExceptHandler(t, h.name, copy.deepcopy(h.body)) for t in h.type.elts]
                else:
                    hs.append(h)
            x.handlers = hs


def t_nestedhelper(e):
    """a condition becomes a local function that is called"""
    if has(e.fn.body, ast.Global, ast.Nonlocal) or e.incls and '__class__' in names(e.fn):
        return
    def f(s, owner, field, i):
        if isinstance(s, ast.If) and not (field == 'orelse' and len(getattr(owner, field)) == 1) and isinstance(s.test, (ast.BoolOp, ast.Compare)) and not has(s.test, ast.NamedExpr, ast.Yield, ast.Await, nested=True) and not {'super', 'locals'} & names(s.test) and e.hit():
            nm = e.fresh('_test')
            d = ast.FunctionDef(nm, ast.arguments([], [], None, [], [], None, []), [ast.Return(s.test)], [], lineno=0, type_params=[])
            s.test = ast.Call(N(nm), [], [])
            return [d, s]
    rewrite_blocks(e.fn, f)


def t_flagelse(e):
    """for .. else -> flag"""
    def f(s, owner, field, i):
        if isinstance(s, ast.For) and s.orelse and e.hit():
            fl = e.fresh('done')
            class V(ast.NodeTransformer):
                def visit_For(self, n):
                    return n
                visit_While = visit_FunctionDef = visit_Lambda = visit_For
                def visit_Break(self, n):
                    return [assign(fl, ast.Constant(True)), n]
            els = s.orelse
            s.orelse = []
            s.body = [y for x in s.body for y in (lambda r: r if isinstance(r, list) else [r])(V().visit(x))]
            return [assign(fl, ast.Constant(False)), s, ast.If(ast.UnaryOp(ast.Not(), N(fl)), els, [])]
    rewrite_blocks(e.fn, f)


def t_setdefault(e):
    """d.setdefault(k, v) as a statement -> if k not in d: d[k] = v"""
    def f(s, owner, field, i):
        v = s.value if isinstance(s, ast.Expr) else None
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'setdefault' and len(v.args) == 2 and all(simple(a) for a in v.args) and e.hit():
            d, (k, x) = v.func.value, v.args
            return [ast.If(ast.Compare(k, [ast.NotIn()], [d]), [ast.Assign([ast.Subscript(copy.deepcopy(d), k, ast.Store())], x, lineno=0)], [])]
    rewrite_blocks(e.fn, f)


def t_argtuple(e):
    """f(a, b) as a statement -> args = (a, b); f(*args)"""
    def f(s, owner, field, i):
        v = getattr(s, 'value', None)
        if isinstance(s, (ast.Expr, ast.Return, ast.Assign)) and isinstance(v, ast.Call) and len(v.args) >= 2 and not any(isinstance(a, ast.Starred) for a in v.args) and isinstance(v.func, (ast.Name, ast.Attribute)) and (isinstance(v.func, ast.Name) and v.func.id not in ('getattr', 'isinstance', 'super', 'type') or isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name)) and e.hit():
            nm = e.fresh('args')
            a = v.args
            v.args = [ast.Starred(N(nm), ast.Load())]
            return [assign(nm, ast.Tuple(a, ast.Load())), s]
    rewrite_blocks(e.fn, f)


def t_kwdict(e):
    """f(a, k=v) as a statement -> kw = {'k': v}; f(a, **kw)"""
    def f(s, owner, field, i):
        v = getattr(s, 'value', None)
        if isinstance(s, (ast.Expr, ast.Return, ast.Assign)) and isinstance(v, ast.Call) and v.keywords and all(k.arg for k in v.keywords) and all(simple(a) for a in v.args) and e.hit():
            nm = e.fresh('kw')
            ks = v.keywords
            v.keywords = [ast.keyword(None, N(nm))]
            return [assign(nm, ast.Dict([ast.Constant(k.arg) for k in ks], [k.value for k in ks])), s]
    rewrite_blocks(e.fn, f)


def t_methodhelper(e):
    """the whole body of a method moves to another method of the class"""
    fn = e.fn
    if not e.incls or e.nested or {'super', 'locals', '__class__'} & names(fn) or has(fn.body, ast.Yield, ast.YieldFrom) or fn.decorator_list or not fn.args.args or fn.name.startswith('__') and fn.name != '__init__':
        return
    doc = [fn.body[0]] if isdoc(fn.body[0]) else []
    body = fn.body[len(doc):]
    if not body or len(body) == 1 and isinstance(body[0], ast.Pass):
        return
    name = e.fresh('_' + fn.name.strip('_') + '_impl')
    a = fn.args
    ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
    for c in ast.walk(e.mod):
        if isinstance(c, ast.ClassDef) and fn in c.body:
            c.body.insert(c.body.index(fn), ast.FunctionDef(name, ast.arguments([], [ast.arg(x) for x in ps], None, [], [], None, []), body, [], lineno=0, type_params=[]))
            fn.body = doc + [ast.Return(ast.Call(ast.Attribute(N(ps[0]), name, ast.Load()), [N(x) for x in ps[1:]], []))]


def t_setlit(e):
    """x in (a, b) -> x in {a, b} (constants); x in [a, b] -> x in (a, b)"""
    class V(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.Tuple, ast.List)) and n.comparators[0].elts and e.hit():
                c = n.comparators[0]
                if all(isinstance(x, ast.Constant) for x in c.elts) and isinstance(n.left, (ast.Attribute, ast.Name)) and isinstance(c, ast.Tuple):
                    n.comparators = [ast.Set(c.elts)]
                else:
                    n.comparators = [ast.Tuple(c.elts, ast.Load()) if isinstance(c, ast.List) else ast.List(c.elts, ast.Load())]
            return n
    e.fn.body = [V().visit(s) for s in e.fn.body]


def t_constlist(e):
    """containers of constants become module-level constants"""
    class V(ast.NodeTransformer):
        def visit_For(self, n):
            self.generic_visit(n)
            n.iter = self.hoist(n.iter)
            return n
        def visit_Compare(self, n):
            self.generic_visit(n)
            n.comparators = [self.hoist(c) for c in n.comparators]
            return n
        def hoist(self, c):
            if isinstance(c, (ast.Tuple, ast.List, ast.Set)) and c.elts and all(isinstance(x, ast.Constant) for x in c.elts) and e.hit():
                nm = e.fresh('_NAMES')
                e.new_funcs.append(assign(nm, ast.Tuple(c.elts, ast.Load()) if not isinstance(c, ast.Set) else c))
                return N(nm)
            return c
    if not e.nested:
        e.fn.body = [V().visit(s) for s in e.fn.body]


def t_hoistnested(e):
    """a nested function that captures nothing moves to the module"""
    if e.nested or e.incls:
        return
    local = assigned(e.fn) | params(e.fn)
    for owner, field, b in list(blocks(e.fn)):
        for s in list(b):
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and not ((names(s) - assigned(s) - params(s)) & (local - {s.name})) and not has(s, ast.Nonlocal, ast.Global, nested=True) and len(b) > 1 and s.name not in names(s) and e.hit():
                nm = e.fresh('_' + s.name.strip('_'))
                old = s.name
                s.name = nm
                b.remove(s)
                e.new_funcs.append(s)
                r = RenameNames({old: nm})
                e.fn.body = [r.visit(x) for x in e.fn.body]
                return t_hoistnested(e)


def t_maplist(e):
    """[f(x) for x in xs] -> list(map(f, xs))"""
    class V(ast.NodeTransformer):
        def visit_ListComp(self, n):
            self.generic_visit(n)
            g = n.generators
            if len(g) == 1 and not g[0].ifs and isinstance(g[0].target, ast.Name) and isinstance(n.elt, ast.Call) and isinstance(n.elt.func, ast.Name) and len(n.elt.args) == 1 and not n.elt.keywords and isinstance(n.elt.args[0], ast.Name) and n.elt.args[0].id == g[0].target.id and e.hit():
                return ast.Call(N('list'), [ast.Call(N('map'), [n.elt.func, g[0].iter], [])], [])
            return n
    e.fn.body = [V().visit(s) for s in e.fn.body]


def t_andret(e):
    """return a and b -> t = a; if not t: return t; return b (or likewise)"""
    def f(s, owner, field, i):
        if isinstance(s, ast.Return) and isinstance(s.value, ast.BoolOp) and e.hit():
            v = s.value
            out = []
            for x in v.values[:-1]:
                t = e.fresh('part')
                out += [assign(t, x), ast.If(ast.UnaryOp(ast.Not(), N(t)) if isinstance(v.op, ast.And) else N(t), [ast.Return(N(t))], [])]
            return out + [ast.Return(v.values[-1])]
    rewrite_blocks(e.fn, f)


def t_loopunpack(e):
    """for a, b in xs -> for item in xs: a, b = item"""
    def f(s, owner, field, i):
        if isinstance(s, ast.For) and isinstance(s.target, ast.Tuple) and e.hit():
            nm = e.fresh('item')
            s.body.insert(0, ast.Assign([s.target], N(nm), lineno=0))
            s.target = N(nm, ast.Store())
    rewrite_blocks(e.fn, f)


def t_itemsget(e):
    """for k, v in d.items() -> for k in d: v = d[k] (d a name)"""
    def f(s, owner, field, i):
        it = s.iter if isinstance(s, ast.For) else None
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'items' and not it.args and isinstance(it.func.value, ast.Name) and isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name) and e.hit():
            d, (k, v) = it.func.value, s.target.elts
            s.body.insert(0, ast.Assign([v], ast.Subscript(N(d.id), N(k.id), ast.Load()), lineno=0))
            s.target, s.iter = k, d
    rewrite_blocks(e.fn, f)


def t_whiletrue(e):
    """while c: B -> while True: if not c: break; B"""
    def f(s, owner, field, i):
        if isinstance(s, ast.While) and not s.orelse and not isinstance(s.test, ast.Constant) and e.hit():
            s.body.insert(0, ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Break()], []))
            s.test = ast.Constant(True)
    rewrite_blocks(e.fn, f)


def t_singleexit(e):
    """a function that ends in if/else branches that return -> one variable, one return"""
    if has(e.fn.body, ast.Yield, ast.YieldFrom):
        return
    nm = e.fresh('result')
    def allret(b):
        if not b:
            return False
        s = b[-1]
        if isinstance(s, ast.Return):
            return True
        if isinstance(s, ast.Raise):
            return True
        return isinstance(s, ast.If) and s.orelse and allret(s.body) and allret(s.orelse)
    def conv(b):
        if not b:
            return
        s = b[-1]
        if isinstance(s, ast.Return):
            b[-1] = assign(nm, s.value or ast.Constant(None))
        elif isinstance(s, ast.If):
            conv(s.body)
            conv(s.orelse)
    b = e.fn.body
    if isinstance(b[-1], ast.If) and b[-1].orelse and allret(b) and e.hit():
        conv(b)
        b.append(ast.Return(N(nm)))
    elif len(b) > 1 and isinstance(b[-1], ast.Return) and b[-1].value is not None and isinstance(b[-2], ast.If) and not b[-2].orelse and allret(b[-2].body) and e.hit():
        last = b.pop()
        b[-1].orelse = [last]
        conv(b)
        b.append(ast.Return(N(nm)))


def t_orelse(e):
    """x = a or b (a simple) -> x = a if a else b"""
    class V(ast.NodeTransformer):
        def visit_BoolOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Or) and len(n.values) == 2 and isinstance(n.values[0], ast.Name) and e.hit():
                return ast.IfExp(N(n.values[0].id), n.values[0], n.values[1])
            return n
    def f(s, owner, field, i):
        if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None:
            s.value = V().visit(s.value)
    rewrite_blocks(e.fn, f)


def t_modalias(e):
    """dotted module attributes that are called get a private module-level name"""
    mods = {a.asname or a.name for s in e.mod.body if isinstance(s, ast.Import) for a in s.names}
    local = assigned(e.fn) | params(e.fn) | e.outer
    done = {}
    class V(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            f = n.func
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in mods - local and f.value.id not in ('sys', 'warnings') and e.hit():
                k = (f.value.id, f.attr)
                if k not in done:
                    done[k] = e.fresh('_%s_%s' % k)
                    e.new_funcs.append(assign(done[k], f))
                n.func = N(done[k])
            return n
    if not e.nested:
        e.fn.body = [V().visit(s) for s in e.fn.body]


T = {k[2:]: v for k, v in globals().items() if k.startswith('t_')}


def functions(mod):
    """(function, qualname, owner list, nested?, in class?, outer local names)"""
    out = []
    def go(body, qual, nested, incls, outer):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                out.append((s, qual + s.name, nested, incls, set(outer)))
                go(s.body, qual + s.name + '.', True, False, outer | assigned(s) | params(s))
            elif isinstance(s, ast.ClassDef):
                go(s.body, qual + s.name + '.', nested, True, outer)
            else:
                for f in ('body', 'orelse', 'finalbody'):
                    b = getattr(s, f, None)
                    if isinstance(b, list):
                        go(b, qual, nested, incls, outer)
                for h in getattr(s, 'handlers', []):
                    go(h.body, qual, nested, incls, outer)
    go(mod.body, '', False, False, set())
    return out


def main(argv):
    global PROB
    out, ts = argv[0], argv[1].split(',')
    opt = dict(zip(argv[2::2], argv[3::2]))
    only = set(opt['--only'].split(',')) if '--only' in opt else None
    PROB = float(opt.get('--prob', 1))
    fprob = float(opt.get('--fprob', 1))
    rnd = random.Random(int(opt.get('--seed', 1)))
    src = opt.get('--src', '/repo')
    if os.path.exists(out):
        assert out.startswith('/tmp/')
        shutil.rmtree(out)
    shutil.copytree(src, out, symlinks=True, ignore=shutil.ignore_patterns('.git', 'build', '*.egg-info'))
    touched = []
    d = os.path.join(out, 'dill')
    for fn in sorted(os.listdir(d)):
        if not fn.endswith('.py') or fn.startswith('__') and fn not in ('__init__.py', '__diff.py'):
            continue
        p = os.path.join(d, fn)
        mod = ast.parse(open(p).read())
        for t in ts:
            for f, qual, nested, incls, outer in functions(mod):
                key = fn + ':' + qual
                if only is not None and key not in only or rnd.random() >= fprob:
                    continue
                e = Env(mod, f, rnd, qual)
                e.nested, e.incls, e.outer = nested, incls, outer
                before = ast.dump(f)
                T[t](e)
                if not f.body:
                    f.body = [ast.Pass()]
                if ast.dump(f) != before:
                    touched.append(key + ' ' + t)
                # module-level helpers come right before the top-level statement holding the function
                for g in e.new_funcs:
                    for i, s in enumerate(mod.body):
                        if any(x is f for x in ast.walk(s)):
                            # guarded definitions (if/try) stay visible: put at the top-level statement
                            mod.body.insert(i, g)
                            break
        txt = ast.unparse(ast.fix_missing_locations(mod))
        open(p, 'w').write(txt + '\n')
    return touched


if __name__ == '__main__':
    for t in main(sys.argv[1:]):
        print(t)
