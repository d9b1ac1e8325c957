"""Loops that leave elements out: checked in every function a property is decided in.

The analysis follows one abstract iteration and takes what it does for what is done for every element.  That is right
unless the loop is left early, so a for loop must not be left
  - on every path through its body (it never repeats),
  - by a break that says nothing: no assignment or call precedes it, there is no else clause, and the loop variables are
    not read afterwards,
  - while its other iterations collect something that is read afterwards.
"""
import ast

from .lib import closure_nodes

SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)
COLLECT = {"append", "add", "extend", "update", "setdefault", "insert", "write"}


def exits(stmts, inner=False):
    """(statement, preceding statements) that leave this loop"""
    def walk(b, before, inner):
        for k, s in enumerate(b):
            if isinstance(s, SCOPES):
                continue
            if isinstance(s, ast.Return) or isinstance(s, ast.Break) and not inner:
                yield s, before + b[:k]
            deep = inner or isinstance(s, (ast.For, ast.While))
            for f in ("body", "orelse", "finalbody"):
                sub = getattr(s, f, None)
                if isinstance(sub, list):
                    yield from walk(sub, before + b[:k], deep and f == "body" or inner)
            for h in getattr(s, "handlers", []):
                yield from walk(h.body, before + b[:k], inner)
            for c in getattr(s, "cases", []):
                yield from walk(c.body, before + b[:k], inner)
    yield from walk(stmts, [], inner)


def repeats(b):
    """can control reach the next iteration from this block (end of the block or continue)?  -> (falls, continues)"""
    cont = False
    for s in b:
        if isinstance(s, ast.Continue):
            return False, True
        if isinstance(s, (ast.Break, ast.Return, ast.Raise)):
            return False, cont
        if isinstance(s, ast.If):
            f1, c1 = repeats(s.body)
            f2, c2 = repeats(s.orelse) if s.orelse else (True, False)
            cont = cont or c1 or c2
            if not f1 and not f2:
                return False, cont
        elif isinstance(s, ast.Try):
            rs = [repeats(s.body + s.orelse)] + [repeats(h.body) for h in s.handlers]
            cont = cont or any(c for _, c in rs)
            if s.finalbody:
                f, c = repeats(s.finalbody)
                cont = cont or c
                if not f:
                    return False, cont
            if not any(f for f, _ in rs):
                return False, cont
        elif isinstance(s, ast.With):
            f, c = repeats(s.body)
            cont = cont or c
            if not f:
                return False, cont
    return True, cont


def says(fn, before, lo, hi):
    """do these statements leave something that is used later: a variable read outside the loop, a store, a call?"""
    for s in before:
        if isinstance(s, ast.Expr) and isinstance(s.value, (ast.Call, ast.Yield, ast.YieldFrom)):
            return True
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and reads(fn, n.id, lo, hi):
                return True
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                return True
    return False


def root(e):
    while isinstance(e, (ast.Attribute, ast.Subscript)):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def collected(b, after=True):
    """names of what is collected on the paths that go on with the next element; after: does the end of b lead there?"""
    for k, s in enumerate(b):
        if isinstance(s, SCOPES):
            continue
        falls, cont = repeats(b[k + 1:])
        on = cont or falls and after
        if not on:
            falls, cont = repeats([s])
            if not cont:
                continue
        if on and isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and \
                isinstance(s.value.func, ast.Attribute) and s.value.func.attr in COLLECT:
            yield root(s.value.func.value)
        elif on and isinstance(s, (ast.Assign, ast.AugAssign)):
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                if isinstance(t, ast.Subscript) or isinstance(s, ast.AugAssign) and isinstance(t, ast.Name):
                    yield root(t)
        elif on and isinstance(s, ast.Expr) and isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            yield ""
        for f in ("body", "orelse", "finalbody"):
            sub = getattr(s, f, None)
            if isinstance(sub, list):
                yield from collected(sub, on or isinstance(s, (ast.For, ast.While)) and f == "body")
        for h in getattr(s, "handlers", []):
            yield from collected(h.body, on)


def reads(fn, name, lo, hi):
    return any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) and not lo <= x.lineno <= hi
               for x in ast.walk(fn))


def counts(n):
    """a loop that does nothing but count the elements up to the first that fails a test: what it is left with is the count"""
    def stop(s):
        return isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Break)

    def step(s):
        return isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant) or \
            isinstance(s, ast.Assign) and isinstance(s.value, ast.BinOp) and isinstance(s.value.right, ast.Constant) \
            and isinstance(s.value.left, ast.Name) and all(isinstance(t, ast.Name) and t.id == s.value.left.id for t in s.targets)
    body = [s for s in n.body if not (isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    flat = []
    for s in body:   # "if cond: count; else: break" and "if not cond: break; count" are the same
        if isinstance(s, ast.If) and len(s.orelse) == 1 and isinstance(s.orelse[0], ast.Break) and all(map(step, s.body)):
            flat += s.body
        elif not stop(s):
            flat.append(s)
    return bool(flat) and all(map(step, flat))


def finishes(s, nm):
    """does the statement end the function with a value that has nothing to do with what is collected in a variable?"""
    return isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Constant) and not any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(s))


def problems(fn):
    for n in ast.walk(fn):
        if not isinstance(n, ast.For):
            continue
        lo, hi = n.lineno, getattr(n, "end_lineno", n.lineno)
        ex = list(exits(n.body))
        if not ex:
            continue
        if counts(n):
            continue
        if not any(repeats(n.body)):
            yield n, "the loop never reaches its second element"
            continue
        names = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        after = any(isinstance(x, ast.Name) and x.id in names and isinstance(x.ctx, ast.Load) and x.lineno > hi for x in ast.walk(fn))
        for s, before in ex:
            if isinstance(s, ast.Break) and not n.orelse and not says(fn, before, lo, hi) and not after:
                yield s, "the loop is left without a result, and the remaining elements are left out"
        for nm in set(collected(n.body)):
            left = [s for s, _ in ex if not (nm and nm in local(fn) and finishes(s, nm))]
            if left and (nm == "" or nm is not None and (reads(fn, nm, lo, hi) or nm not in local(fn))):
                yield left[0], "the loop is left while it collects %s, which then lacks the remaining elements" % (nm or "values")


def local(fn):
    return {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


# properties that look at all functions of a module whatever their loops do
SWEEPS = {"D08", "C01", "C02", "C10", "C15", "C16", "C17", "C18", "S01"}


def check(ctx):
    if ctx.pid in SWEEPS:
        return
    R = ctx.pid + ".loops"
    done = set()
    for q in sorted(ctx.nfuncs):
        for fi in ctx.prog.funcs.get(q, []):
            for fn in closure_nodes(ctx, fi):
                if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)) or id(fn) in done:
                    continue
                done.add(id(fn))
                bad = list(problems(fn))
                for n, msg in bad:
                    ctx.ob(R, fi.qual, False, msg, fi, n.lineno)
                if not bad and any(isinstance(x, ast.For) for x in ast.walk(fn)):
                    ctx.ob(R, fi.qual, True, "", fi)
