"""C17: process-wide state is restored; D01: capturing a stream."""
import ast

from .. import terms as tm
from ..lib import (facts, is_helper, module_level, mutation, result, run_with_closures, show, split_g, sweep,
                   written)
from ..program import AnalysisError
from . import rule

D = "dill._dill."
# functions that change process-wide state -> text that marks the restoring call (None: own rule)
SETTERS = {
    "warnings.simplefilter": None, "warnings.filterwarnings": None, "warnings.resetwarnings": None,
    "sys.setrecursionlimit": "sys.getrecursionlimit()", "os.chdir": "os.getcwd()", "os.umask": "os.umask(",
    "os.fchdir": "os.getcwd()", "signal.signal": "signal.", "gc.disable": "gc.enable()", "gc.enable": "gc.",
    "gc.freeze": "gc.unfreeze()", "gc.set_debug": "gc.get_debug()", "gc.set_threshold": "gc.get_threshold()",
    "sys.settrace": "sys.gettrace()", "sys.setprofile": "sys.getprofile()",
    "threading.settrace": "threading.gettrace()", "threading.setprofile": "threading.getprofile()",
    "sys.setswitchinterval": "sys.getswitchinterval()", "locale.setlocale": "locale.",
    "os.putenv": "os.", "os.unsetenv": "os.", "random.seed": "random.getstate()",
    "random.setstate": "random.getstate()", "socket.setdefaulttimeout": "socket.getdefaulttimeout()",
    "logging.disable": "logging.", "logging.basicConfig": "?", "logging.setLoggerClass": "logging.getLoggerClass()",
    "copyreg.pickle": "?", "copyreg.add_extension": "copyreg.remove_extension", "sys.addaudithook": "?",
    "faulthandler.enable": "faulthandler.disable()", "os.setuid": "?", "os.setgid": "?", "resource.setrlimit": "resource.",
    "codecs.register": "codecs.unregister", "codecs.register_error": "?", "atexit.register": "atexit.unregister",
    "sys.set_int_max_str_digits": "sys.get_int_max_str_digits()",
}
# the objects other rules own: (prefix, reason)
OWNED = [("pickle._Pickler.dispatch", "C16"), ("pickle.", "C16"), ("copyreg.dispatch_table", "C16")]


def place(base, name=None):
    return base if name is None else "%s.%s" % (base, name)


def state_ops(p):
    """[(place, value text or 'del', event, attempt?)] of the process-wide state a path writes"""
    out = []
    for e in p.events:
        att = e.kind == "raises" and e.x is not None
        kind, t, x = e.kind, e.t, e.x
        if att:
            kind = tm.cval(x.a[0])
            x = x.a[1]
        if kind in ("setattr", "delattr"):
            nm = (x.a[0] if kind == "setattr" else x)
            if not (t.op == "g"):
                continue
            s = show(t)
            if s.startswith("dill"):
                continue
            n = tm.cval(nm) if tm.is_const(nm) else "<%s>" % show(nm)
            out.append((place(s, n), "del" if kind == "delattr" else show(x.a[1]), e, att))
        elif kind in ("setitem", "delitem"):
            if t.op != "g" or show(t).startswith("dill"):
                continue
            k = x.a[0] if kind == "setitem" else x
            out.append(("%s[%s]" % (show(t), show(k)), "del" if kind == "delitem" else show(x.a[1]), e, att))
        elif kind == "mut" or (kind == "call" and not att):
            if kind == "call":
                f = split_g(t.a[0])
                if f.op != "attr" or f.a[0].op != "g" or written(e) is None:
                    continue
                base, m, args = f.a[0], f.a[1], list(tm.cargs(t))
            else:
                base, m, args = t, tm.cval(x.a[0]), list(x.a[1:])
            s = show(base)
            if base.op != "g" or s.startswith("dill") or s in (
                    "builtins.dict", "builtins.list", "builtins.set", "builtins.object", "builtins.type"):
                continue
            if m == "pop" and args:
                out.append(("%s[%s]" % (s, show(args[0])), "del", e, att))
            elif m == "setdefault" and len(args) > 1:
                pl = "%s[%s]" % (s, show(args[0]))
                gone = [v for q, v, _, _ in out if q == pl][-1:] == ["del"]
                out.append((pl, show(args[1]) if gone else "setdefault " + show(args[1]), e, att))
            else:
                out.append((s, "?" + m, e, att))
    return out


def owned(pl):
    return any(pl.startswith(o) for o, _ in OWNED)


def reads_of(pl):
    """texts that read a place before it was written"""
    if pl.endswith("]"):
        b, _, k = pl.partition("[")
        k = k[:-1]
        return {"%s[%s]" % (b, k), "%s.get(%s)" % (b, k), "%s.get(%s, None)" % (b, k),
                "get(%s, %s, None)" % (b, k)}
    b, _, n = pl.rpartition(".")
    if n.startswith("<"):
        n2 = n[1:-1]
        return {"getattr(%s, %s)" % (b, n2), "%s.__dict__[%s]" % (b, n2), "getattr(%s, %s, None)" % (b, n2)}
    return {pl, "getattr(%s, '%s')" % (b, n), "getattr(%s, '%s', None)" % (b, n)}


def absent(p, pl):
    """was the entry absent when the path started?"""
    f = facts(p)
    if not pl.endswith("]"):
        return any(f.get("hasattr(%s, '%s')" % pl.rpartition(".")[::2]) is False for _ in (0,))
    b, _, k = pl.partition("[")
    k = k[:-1]
    if k.startswith(("fmt('__runtime__.", "'__runtime__.")) or "__runtime__" in k:
        return True
    return f.get("%s in %s" % (k, b)) is False or any(f.get(r + " is None") is True for r in reads_of(pl))


def restored(p, pl, ops):
    """does the last operation of a path on a place put the original back?"""
    last = None
    for q, v, e, att in ops:
        if q == pl:
            last = (v, e)
    v, e = last
    if v == "del":
        return absent(p, pl)
    if v in reads_of(pl):
        return True
    if absent(p, pl):
        k = pl.partition("[")[2][:-1]
        if v in ("%s_import_module(%s)" % (D, k), "importlib.import_module(%s)" % k):
            return True             # the import itself has put it there
    # removed by a delete that found it gone
    i = p.events.index(e)
    for e2 in p.events[i:]:
        if e2.kind == "raises" and e2.x is not None and tm.cval(e2.x.a[0]) == "delitem":
            return absent(p, pl)
    return False


def judge(ctx, rule_, fi, p, only=lambda pl: True):
    ops = [o for o in state_ops(p) if not owned(o[0]) and only(o[0])]
    done = set()
    for pl, v, e, att in ops:
        if att or pl in done:
            continue
        done.add(pl)
        if v.startswith("?"):
            ctx.ob(rule_, "%s changes %s" % (fi.qual, pl), False,
                   "process-wide state is changed in place and cannot be shown to be restored", fi, e.line)
            continue
        how = "returns" if p.ctl == "ret" else "raises %s" % show(p.val)
        ctx.ob(rule_, "%s changes %s" % (fi.qual, pl), restored(p, pl, ops),
               "the function %s without restoring %s" % (how, pl), fi, e.line)
    return len(done)


def state_keep(kind, t, x=None):
    if kind in ("setattr", "delattr", "setitem", "delitem", "mut"):
        return t.op == "g"
    if kind in ("with+", "with-", "except"):
        return True
    if kind == "raises":
        if x is not None:
            return t.op == "g"
        return show(t.a[0]) in SETTERS
    if kind == "call":
        f = split_g(t.a[0])
        n = show(t.a[0])
        return n in SETTERS or n.startswith(("gc.", "signal.", "warnings.catch", "logging.")) or \
            (f.op == "attr" and f.a[0].op == "g" and f is not t.a[0])or \
            n.endswith((".__enter__", ".__exit__")) or (f.op == "attr" and f.a[0].op == "g")
    return False


EXEMPT = {"dill.__diff": "difference tracking replaces the import function on request (use_diff)"}


@rule("C17")
def restore(ctx):
    R = "C17.restore"
    todo = []
    seen = set()
    for fi, p in sweep(ctx, keep=state_keep):
        hit = [o for o in state_ops(p) if not owned(o[0])] or \
            [e for e in p.events if e.kind == "call" and show(e.t.a[0]) in SETTERS]
        if hit and fi.module not in EXEMPT:
            seen.add(fi.qual)
        ctx.ob(R, fi.qual, True, "", fi)
    for q in sorted(seen):
        top = q
        while top not in ctx.prog.funcs and "." in top:
            top = top.rpartition(".")[0]
        todo.append(top)
    n = 0
    for q in sorted(set(todo)):
        for fi in ctx.prog.funcs[q]:
            for f2, p in run_with_closures(ctx, fi, keep=state_keep, raises="all", excev=True,
                                           track=lambda a: True):
                n += judge(ctx, R, f2, p)
                setters(ctx, f2, p)
    ctx.floor(R, 200)
    if n < 3:
        raise AnalysisError("no restoring function found")


def setters(ctx, fi, p):
    depth = 0
    last = {}
    for e in p.events:
        s = show(e.t)
        if e.kind == "with+" and s.startswith("warnings.catch_warnings("):
            depth += 1
        elif e.kind == "with-" and s.startswith("warnings.catch_warnings("):
            depth -= 1
        elif e.kind == "call" and s.startswith("warnings.catch_warnings(") and s.endswith(".__enter__()"):
            depth += 1
        elif e.kind == "call" and s.startswith("warnings.catch_warnings(") and ".__exit__(" in s:
            depth -= 1
        if e.kind not in ("call", "raises") or e.x is not None:
            continue
        f = show(e.t.a[0])
        if f not in SETTERS:
            if f in ("gc.unfreeze",):
                last["gc.freeze"] = e
            continue
        if SETTERS[f] is None:
            if e.kind == "call":
                ctx.ob("C17.warnings", "%s calls %s" % (fi.qual, f), depth > 0,
                       "the warning filters are changed outside of a catch_warnings block", fi, e.line)
            continue
        if f in ("gc.enable", "gc.disable"):
            last["gc"] = (e, f)
            continue
        last.setdefault(f, []).append(e)
    if depth > 0:
        ctx.ob("C17.warnings", fi.qual, False, "a catch_warnings block is not left on the path that ends with " + result(p), fi)
    if "gc" in last and last.pop("gc")[1] == "gc.disable":
        ctx.ob("C17.setter", "%s calls gc.disable" % fi.qual, False, "collection stays disabled on the path that ends with "
               + result(p), fi)
    for f, es in last.items():
        if not isinstance(es, list) or not any(e.kind == "call" for e in es):
            continue
        e = es[-1]
        old = SETTERS[f]
        a = " ".join(show(x) for x in tm.cargs(e.t))
        first = show(es[0].t)
        ok = len(es) > 1 and (old in a or first in a)
        ctx.ob("C17.setter", "%s calls %s" % (fi.qual, f), ok,
               "the previous state is not put back on the path that ends with " + result(p), fi, e.line)


@rule("C17")
def imports(ctx):
    """importing dill changes nothing either"""
    for name, m in sorted(ctx.prog.modules.items()):
        if name in EXEMPT:
            continue
        bad = []

        def visit(n, guarded):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                return
            if isinstance(n, ast.With):
                g_ = guarded or any("catch_warnings" in ast.unparse(i.context_expr) for i in n.items)
                for x in n.body:
                    visit(x, g_)
                return
            if isinstance(n, ast.Call):
                f = ast.unparse(n.func).replace("__builtin__.", "builtins.")
                if f in SETTERS and not (guarded and SETTERS[f] is None):
                    bad.append((n.lineno, f))
            ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(
                n, (ast.AugAssign, ast.AnnAssign)) else []
            for t in ts:
                if isinstance(t, (ast.Attribute, ast.Subscript)):
                    s = ast.unparse(t)
                    root = s.split(".")[0].split("[")[0]
                    if root in ("sys", "os", "warnings", "builtins", "__builtin__", "logging", "io", "gc",
                                "threading", "socket", "types", "typing"):
                        bad.append((n.lineno, s))
            for c in ast.iter_child_nodes(n):
                visit(c, guarded)
        for st in m.tree.body:
            visit(st, False)
        if not bad:
            ctx.ob("C17.import", name, True)
        for line, what in bad:
            ctx.ob("C17.import", "%s:%s" % (name, what), False,
                   "importing the module changes process-wide state (%s) for good" % what, None, line)


# ------------------------------------------------------------------ D01
@rule("D01")
def capture(ctx):
    R = "D01.restore"
    for fi in ctx.funcs("dill.temp.capture"):
        ps = [p for _, p in run_with_closures(ctx, fi, names=("stream",), keep=state_keep2, raises="all",
                                              excev=True, track=lambda a: True)]
        body = [p for p in ps if any(e.kind == "yield" for e in p.events)]
        if not body:
            raise AnalysisError("capture yields nothing")
        for p in ps:
            ops = state_ops(p)
            pls = {pl for pl, _, _, _ in ops}
            line = ops[0][2].line if ops else 0
            bad = [pl for pl in pls if pl != "sys.<stream>"]
            ctx.ob("D01.only", fi.qual, not bad, "other state is changed: %s" % bad, fi, line)
            if not [o for o in ops if not o[3]]:
                ctx.ob(R, fi.qual, "yield" not in [e.kind for e in p.events],
                       "the body runs without a replaced stream", fi)
                continue
            ctx.ob(R, fi.qual, restored(p, "sys.<stream>", ops),
                   "the stream is not given back on the path that ends with " + result(p), fi, line)
        for p in body:
            i = next(i for i, e in enumerate(p.events) if e.kind == "yield")
            before = [v for pl, v, e, att in state_ops(p) if not att and p.events.index(e) < i]
            buf = [b for b in before if b.startswith(("io.StringIO(", "StringIO("))]
            y = show(p.events[i].t)
            ok = len(before) == 1 and len(buf) == 1
            ctx.ob("D01.buffer", fi.qual, ok, "the stream must be replaced by one new text buffer: %s" % before, fi,
                   p.events[i].line)
            ctx.ob("D01.buffer", fi.qual + " (as)", y in before or y == "getattr(sys, stream)",
                   "the context yields %s instead of the buffer" % y, fi, p.events[i].line)
            n = sum(e.kind == "yield" for e in p.events)
            ctx.ob("D01.buffer", fi.qual + " (once)", n == 1, "the context yields %d times" % n, fi)
            sw = p.ctl == "ret" and any(e.kind == "except" for e in p.events[i:])
            ctx.ob("D01.raise", fi.qual, not sw, "an exception of the body is swallowed", fi)
        up = [p for p in body if p.ctl == "raise"]
        ctx.ob("D01.raise", fi.qual + " (propagates)", bool(up), "no exception leaves the context", fi)
        decos = [ast.unparse(d) for d in fi.node.decorator_list]
        ctx.ob("D01.context", fi.qual, any(d in ("contextlib.contextmanager", "contextmanager") for d in decos),
               "capture is not a context manager: %s" % decos, fi)


def state_keep2(kind, t, x=None):
    return kind == "yield" or state_keep(kind, t, x)
