"""Liveness of local names at loop heads and exception handlers (used to join abstract states)."""
import ast


def loads(n, name):
    return any(isinstance(x, ast.Name) and x.id == name and not isinstance(x.ctx, ast.Store) for x in ast.walk(n))


def mentions(n, name):
    return any(isinstance(x, ast.Name) and x.id == name or
               isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == name or
               isinstance(x, ast.ExceptHandler) and x.name == name for x in ast.walk(n))


def targets(t, name):
    """True if assigning to t certainly binds the name and reads nothing of it"""
    if isinstance(t, ast.Name):
        return t.id == name
    if isinstance(t, (ast.Tuple, ast.List)):
        return any(targets(x, name) for x in t.elts)
    if isinstance(t, ast.Starred):
        return targets(t.value, name)
    return False


def live(stmts, name, out, brk, head=False):
    """may the value the name has before the statements be read by them, or after them?"""
    for s in reversed(stmts):
        out = live1(s, name, out, brk, head)
    return out


def live1(s, name, out, brk, head):
    if isinstance(s, ast.Break):
        return brk
    if isinstance(s, ast.Continue):
        return head
    if not isinstance(s, (ast.Import, ast.ImportFrom)) and not mentions(s, name) and not any(isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.Raise))
                                         for x in ast.walk(s)):
        return out
    if isinstance(s, (ast.Import, ast.ImportFrom)):
        return False if any((x.asname or x.name.split(".")[0]) == name for x in s.names) else out
    if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
        return loads(s, name) or s.name != name and out
    if isinstance(s, ast.Assign):
        if loads(s, name):
            return True
        return False if any(targets(t, name) for t in s.targets) else out
    if isinstance(s, ast.AnnAssign) and s.value is not None:
        if loads(s.value, name):
            return True
        return False if targets(s.target, name) else out
    if isinstance(s, (ast.Expr, ast.Assert)):
        return mentions(s, name) or out
    if isinstance(s, (ast.Return, ast.Raise)):
        return mentions(s, name)
    if isinstance(s, ast.If):
        return mentions(s.test, name) or live(s.body, name, out, brk, head) or \
            live(s.orelse, name, out, brk, head)
    if isinstance(s, ast.While):
        after = live(s.orelse, name, out, brk, head) or out
        return mentions(s.test, name) or live(s.body, name, after, after) or after
    if isinstance(s, ast.For):
        after = live(s.orelse, name, out, brk, head) or out
        if mentions(s.iter, name):
            return True
        if loads(s.target, name):
            return True
        return after or not targets(s.target, name) and live(s.body, name, after, after)
    if isinstance(s, ast.With):
        if any(mentions(i, name) for i in s.items):
            return True
        return live(s.body, name, out, brk, head)
    if isinstance(s, ast.Try):
        if any(loads(x, name) for x in s.finalbody):
            return True
        if any(live(h.body, name, out, brk, head) or h.type is not None and mentions(h.type, name)
               for h in s.handlers):
            return True
        if s.finalbody and out:
            return True
        return live(s.body, name, live(s.orelse, name, out, brk, head), brk, head)
    if isinstance(s, ast.Pass):
        return out
    return mentions(s, name) or out


def outside(fn, name, lo, hi):
    """is the name read outside the lines lo..hi of the function?"""
    return any(isinstance(x, ast.Name) and x.id == name and not isinstance(x.ctx, ast.Store) and
               not lo <= x.lineno <= hi for x in ast.walk(fn))


def after(fn, name, hi):
    return any(isinstance(x, ast.Name) and x.id == name and not isinstance(x.ctx, ast.Store) and
               x.lineno > hi for x in ast.walk(fn))


def plain(fi):
    """locals whose reads are all visible in the body itself"""
    return {n for n in fi.locals if n not in fi.captured}


def dead_at_head(fi, loop):
    """locals whose value at the end of an iteration is never read"""
    lo, hi = loop.lineno, getattr(loop, "end_lineno", None)
    if hi is None or not any(x is loop for x in ast.walk(fi.node)):
        return frozenset()
    out = set()
    for n in plain(fi):
        if outside(fi.node, n, lo, hi):
            continue
        if isinstance(loop, ast.While) and mentions(loop.test, n):
            continue
        if isinstance(loop, ast.For) and (loads(loop.iter, n) or loads(loop.target, n)):
            continue
        if loop.orelse and any(mentions(x, n) for x in loop.orelse):
            continue
        if isinstance(loop, ast.For) and targets(loop.target, n) or not live(loop.body, n, False, False):
            out.add(n)
    return frozenset(out)


def dead_at_raise(fi, tr):
    """locals that are never read once an exception has left the body of the try statement"""
    b = tr.body
    hi = getattr(tr, "end_lineno", None)
    if not any(isinstance(x, ast.Try) and x.body is b for x in ast.walk(fi.node)):
        return frozenset()
    if not b or hi is None or not hasattr(tr, "lineno"):
        return frozenset()
    loops = [x for x in ast.walk(fi.node) if isinstance(x, (ast.For, ast.While)) and
             x.lineno <= tr.lineno and getattr(x, "end_lineno", 0) >= hi]
    heads = [dead_at_head(fi, x) for x in loops]
    out = set()
    for n in plain(fi):
        if any(mentions(x, n) for x in tr.handlers + tr.finalbody) or after(fi.node, n, hi):
            continue
        if not all(n in h for h in heads):
            continue
        out.add(n)
    return frozenset(out)
