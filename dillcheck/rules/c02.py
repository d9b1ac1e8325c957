"""C02: dumping writes only to objects the dumping code allocated itself."""
import ast

from .. import terms as tm
from ..lib import MUTATORS, handlers, is_helper, mutation, param_names, run_with_closures, show, split_g, written
from ..program import AnalysisError
from . import rule

D, S = "dill._dill.", "dill.session."
ROOTS = {D + "dump", D + "dumps", D + "pickles", D + "copy", D + "check", S + "dump_module", D + "Pickler.dump",
         D + "Pickler.save", D + "Pickler.__init__", D + "Pickler.save_reduce", D + "is_dill"}
MODULES = ("dill._dill", "dill.session", "dill.logger", "dill.detect", "dill._shims")
# entry points of loading: what they do is not part of dumping
LOADS = {D + "load", D + "loads", D + "_extend", D + "_revert_extension", D + "use_diff", D + "register", D + "pickle",
         S + "load_module", S + "load_module_asdict", "dill.logger.trace"}
FRESH = {"types.ModuleType", "types.SimpleNamespace", "builtins.dict", "builtins.list", "builtins.set",
         "builtins.bytearray", "builtins.object", "io.BytesIO", "io.StringIO", "copy.copy", "copy.deepcopy",
         "collections.defaultdict", "collections.OrderedDict", "collections.deque", "collections.Counter",
         "dill._dill.Pickler", "dict", "list", "set"}
# method calls that hand out something stored in their object
READERS = {"get", "values", "items", "keys", "pop", "setdefault", "__getitem__", "popitem", "__iter__"}
# operations that consume, move or release the object they are called on
CONSUMERS = {"release", "acquire", "close", "seek", "read", "readline", "readlines", "readinto", "read1", "write",
             "writelines", "truncate", "detach", "send", "throw", "__next__", "__enter__", "__exit__", "recv",
             "shutdown", "cache_clear", "__init__", "set_name", "join", "start", "terminate", "kill", "_release_save",
             "_acquire_restore", "notify", "notify_all", "set", "cancel", "put", "reconfigure", "__setstate__", "getbuffer",
             "__reduce_ex__!", "resize", "flush!", "task_done"}
CONSUME_F = {"next", "builtins.next", "os.close", "os.ftruncate", "os.lseek", "os.write", "os.read", "os.dup2"}
ITERATORS = ("IteratorType", "GeneratorType", "Iterator")
PICKLER = {"pickler", "self"}
# parameters of the entry points that name where the pickle goes to, not what is pickled
STREAMS = {"file", "filename", "stream"}


def is_container(t):
    return t.op in ("dict", "list", "set", "tuple", "each", "comp", "fmt", "c", "fn", "inst", "obj")


def strip(t):
    """the term a read goes through, or None at a root"""
    if t.op in ("attr", "sub", "item", "elem", "ident", "popped", "star", "next1", "next", "loop", "getattr", "upd"):
        return t.a[0]
    if t.op == "get":
        return t.a[0]
    if t.op == "call":
        f = t.a[0]
        a = tm.cargs(t)
        if f.op == "attr" and f.a[1] in READERS:
            return f.a[0]
        if f.op == "g" and f.a[0].rpartition(".")[2] in ("getattr", "vars", "next", "iter", "__getattribute__",
                                                         "reversed", "__getitem__") and a:
            return a[0]
    return None


def chain(t):
    out = [t]
    while True:
        n = strip(t)
        if n is None or not isinstance(n, tm.T):
            return out
        t = n
        out.append(t)


def fresh(t):
    """was the object allocated by the function itself (or does it belong to something that was)?"""
    if t.op in ("dict", "list", "set", "tuple", "c", "fn", "fmt"):
        return True
    if t.op in ("inst", "obj", "new"):
        return True
    if t.op == "ident":
        return fresh(t.a[0])
    if t.op == "call":
        f = t.a[0]
        if f.op == "g" and (f.a[0] in FRESH or f.a[0].rpartition(".")[2] in ("copy", "deepcopy")):
            return True
        if f.op == "attr" and f.a[1] in ("copy", "__copy__", "fromkeys", "groupdict"):
            return True
    return False


def owned(t, classes):
    """can a write to `t` only reach an object allocated by the dumping code?"""
    if fresh(t):
        return True
    if t.op == "call" and t.a[0].op == "g" and t.a[0].a[0] in classes:
        return True
    if t.op == "attr" and (t.a[1] == "__dict__" or created(t.a[0], classes)):
        return owned(t.a[0], classes)
    if t.op in ("item", "sub", "next", "elem", "get", "popped") or (t.op == "call" and strip(t) is not None):
        return created(strip(t), classes)
    return False


def created(t, classes):
    """a container built by the dumping code whose contents were built there as well"""
    if t.op == "ident":
        return created(t.a[0], classes)
    if t.op == "attr":
        return created(t.a[0], classes)
    if t.op in ("item", "sub"):
        return created(t.a[0], classes)
    if t.op == "call" and t.a[0].op == "g" and (t.a[0].a[0] in FRESH or t.a[0].a[0] in classes):
        vals = list(tm.cargs(t)) + list(tm.ckw(t).values())
        return all(created(v, classes) or tm.is_const(v) or v.op == "g" for v in vals) or \
            t.a[0].a[0] == D + "Pickler"
    if t.op in ("dict", "list", "set", "tuple"):
        return not t.a or all(tm.is_const(x) or created(x, classes) for x in t.a)
    return False


def dumpset(ctx):
    """functions that can run while dumping: closure of the direct calls from the handlers and entry points"""
    bynode = {fi.node: fi for fis in ctx.prog.funcs.values() for fi in fis}
    roots = set()
    for fis in handlers(ctx).values():
        roots.update(fi.node for fi in fis)
    hn = set(roots)
    for q in ROOTS:
        for fi in ctx.prog.funcs.get(q, []):
            roots.add(fi.node)
    byname = {}
    for fi in bynode.values():
        byname.setdefault(fi.qual.rpartition(".")[2], []).append(fi)
    todo, seen = list(roots), set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        for c in ast.walk(n):
            names = []
            if isinstance(c, ast.Call):
                names = [c.func]
                base = ast.unparse(c.func)
                if base in ("map", "filter", "sorted", "functools.reduce"):
                    names += c.args[:1]
            for f in names:
                nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
                for fi in byname.get(nm, []):
                    if fi.module in MODULES and fi.qual not in LOADS and (
                            isinstance(f, ast.Name) or fi.qual.count(".") > 2 or ast.unparse(f.value) in (
                                "_dill", "detect", "session", "logger", "dill", "_shims")):
                        if not fi.qual.startswith((D + "Unpickler", "dill.logger")):
                            todo.append(fi.node)
    return hn, [bynode[n] for n in seen if n in bynode]


def keep(kind, t, x=None):
    if kind == "call":
        f = split_g(t.a[0])
        if f.op == "g":
            return f.a[0].startswith("dill.") or f.a[0] in ("builtins.setattr", "builtins.delattr", "setattr",
                                                            "delattr") or f.a[0] in CONSUME_F
        if f.op == "attr":
            return f.a[1] in MUTATORS or f.a[1] in CONSUMERS
        return False
    return kind in ("setitem", "delitem", "mut", "aug", "setattr", "delattr", "storeglobal")


@rule("C02")
def effects(ctx):
    hn, funcs = dumpset(ctx)
    if len(hn) < 25:
        raise AnalysisError("only %d handlers found" % len(hn))
    classes = {q for q in ctx.prog.classes if q.startswith("dill.")} if hasattr(ctx.prog, "classes") else set()
    inl = frozenset(q for q in ctx.prog.funcs if q.rpartition(".")[2].startswith("_get_typedict"))
    runs = []
    for fi in sorted(funcs, key=lambda f: (f.qual, f.node.lineno)):
        if is_helper(ctx, fi) or fi.qual in inl:
            continue
        nested = "<locals>" in fi.qual
        try:
            for f, p in run_with_closures(ctx, fi, keep=keep, inline=inl, excev=False):
                runs.append((fi, f, p))
        except AnalysisError as e:
            if "state cap" in str(e):
                raise AnalysisError("%s is too large to analyse" % fi.qual)
            raise
    # which parameters a function writes to (fixpoint over the call sites)
    mut = {}
    changed = True
    while changed:
        changed = False
        for fi, f, p in runs:
            for t, e, why in writes(ctx, p, mut, classes):
                r = chain(t)[-1]
                if r.op == "p" and r.a[0] in param_names(fi) and r.a[0] not in PICKLER and f is fi:
                    s = mut.setdefault(fi.qual, {})
                    if r.a[0] not in s:
                        s[r.a[0]] = (e, why)
                        changed = True
    called = {}
    for fi, f, p in runs:
        for e in p.events:
            if e.kind == "call" and e.t.a[0].op == "g":
                called.setdefault(e.t.a[0].a[0], set()).add(fi.qual)
    done = {}
    for fi, f, p in runs:
        done.setdefault((f.qual, f.node.lineno), [fi, f, []])
        for t, e, why in writes(ctx, p, mut, classes):
            bad = judge(ctx, fi, f, t, hn, called, classes)
            if bad:
                done[(f.qual, f.node.lineno)][2].append((e, t, why, bad))
    for (q, line), (fi, f, bads) in sorted(done.items()):
        if not bads:
            ctx.ob("C02.effects", q, True, "", f)
        for e, t, why, bad in bads[:3]:
            ctx.ob("C02.effects", "%s writes %s" % (q, show(t)[:80]), False, "while dumping, %s; %s" % (why, bad), f,
                   e.line)
    ctx.floor("C02.effects", 80)


def writes(ctx, p, mut, classes):
    for e in p.events:
        if e.kind == "call" and e.t.a[0].op == "g" and e.t.a[0].a[0] in mut:
            q = e.t.a[0].a[0]
            fi = ctx.prog.funcs[q][0]
            a = list(tm.cargs(e.t))
            kw = tm.ckw(e.t)
            names = param_names(fi)
            for n in mut[q]:
                v = kw.get(n)
                if v is None and names.index(n) < len(a):
                    v = a[names.index(n)]
                if v is not None:
                    yield v, e, "%s modifies its argument %s" % (q, n)
            continue
        c = consumed(e)
        if c is not None:
            yield c[0], e, c[1]
            continue
        w = written(e)
        if w is None or e.kind == "storeglobal":
            continue
        if e.kind in ("setattr", "delattr") or (e.kind == "call" and e.t.a[0].op == "g" and
                                                e.t.a[0].a[0].endswith(("setattr", "delattr"))):
            yield e.t if e.kind != "call" else tm.cargs(e.t)[0], e, "an attribute is written"
        else:
            m = mutation(e)[0] or e.kind
            yield w, e, "%s is applied" % m


def judge(ctx, fi, f, t, hn, called, classes):
    """reason why a write is not allowed, or None"""
    if owned(t, classes):
        return None
    ch = chain(t)
    r = ch[-1]
    names = [c.a[1] for c in ch if c.op == "attr"]
    if any(c.op == "ident" or fresh(c) for c in ch[:1]):
        return None
    if r.op == "p":
        n = r.a[0]
        if n.startswith("*"):
            return None
        if n in PICKLER and (n == "pickler" or fi.qual.startswith(D + "Pickler.") or fi.cls or f is not fi or f.cls):
            if any(x in ("_main", "_original_main", "memo!") for x in names) or \
                    any(x.startswith("get") and 0 for x in names):
                return "the module being saved is modified"
            return None
        if f is not fi:
            return None if n == "self" else "it may be part of the object being pickled (%s)" % show(t)[:60]
        pn = param_names(fi)
        if (fi.node in hn and pn.index(n) < 2) or not (called.get(fi.qual) or fi.node in hn):
            return "it is part of the object being pickled (%s)" % show(t)[:60]
        return None         # judged at the call sites
    if r.op == "g":
        nm = r.a[0]
        if nm.startswith(("__main__", "builtins")):
            return "a module that can be pickled is modified"
        return None         # process-wide state: C16, C17
    if fresh(r):
        if len(ch) == 1 or created(r, classes):
            return None
        # contents of a fresh container: what was put in?
        return "it was taken out of a copy, but is still shared with the object being pickled" \
            if mentions_param(r) else None
    if r.op == "call":
        f0 = r.a[0]
        if f0.op == "g" and f0.a[0] in classes:
            return None
        return "it may be part of the object being pickled (%s)" % show(t)[:60] if mentions_param(r) else None
    if mentions_param(r):
        return "it may be part of the object being pickled (%s)" % show(t)[:60]
    return None


def mentions_param(t):
    todo = [t]
    while todo:
        x = todo.pop()
        if x.op == "p":
            if x.a[0] not in PICKLER and not x.a[0].startswith("*"):
                return True
            continue
        todo.extend(y for y in x.a if isinstance(y, tm.T))
    return False


def consumed(e):
    """(object, what happens) when an event consumes, moves or releases a parameter"""
    if e.kind != "call":
        return None
    fn, a = e.t.a[0], tm.cargs(e.t)
    if fn.op == "attr" and fn.a[1] in CONSUMERS:
        r = chain(fn.a[0])[-1]
        if r.op == "p" and not r.a[0].startswith("*") and r.a[0] not in PICKLER and r.a[0] not in STREAMS:
            return fn.a[0], "%s is called on it" % fn.a[1]
    elif fn.op == "g" and fn.a[0] in CONSUME_F and a:
        c = chain(a[0])
        if c[-1].op == "p" and c[-1].a[0] not in PICKLER and not any(
                x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] in READERS for x in c):
            return a[0], "an element is taken from it"
    return None
