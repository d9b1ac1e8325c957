"""C23: the handlers also work under a stock pickler."""
import ast
import re
import pickle as _pickle

from .. import terms as tm
from ..engine import Engine, Policy
from ..lib import HANDLER_PARAMS, OneOf, is_helper, result, handlers, run_with_closures, show
from ..program import AnalysisError
from . import rule

D = "dill._dill."
QUEUE = D + "_save_with_postproc"


MOD_TEST = ("ret 'dill' in pickler.__module__", "ret 'dill' in type(pickler).__module__",
            "ret 'dill' in pickler.__class__.__module__")
MRO_TEST = ("ret dill._dill.Pickler in pickler.__class__.mro()", "ret dill._dill.Pickler in type(pickler).mro()",
            "ret dill._dill.Pickler in type(pickler).__mro__", "ret dill._dill.Pickler in pickler.__class__.__mro__",
            "ret isinstance(pickler, dill._dill.Pickler)", "ret issubclass(type(pickler), dill._dill.Pickler)",
            "ret issubclass(pickler.__class__, dill._dill.Pickler)")


@rule("C23", "C13")
def recognised(ctx):
    """picklers derived from dill's count as dill's, unless subclasses are excluded"""
    for fi in ctx.funcs(D + "is_dill"):
        ps = ctx.paths(fi, ("pickler", "child"))

        def spec(A):
            if A.any("child is False", "child == False"):
                return OneOf(*MOD_TEST)
            nomro = A.get("hasattr(pickler.__class__, 'mro')") is False or \
                A.get("hasattr(type(pickler), 'mro')") is False
            if nomro:
                return OneOf(*MOD_TEST, *MRO_TEST)
            return OneOf(*MRO_TEST)
        ctx.table("C23.recognised", fi, ps, result, spec)
    ctx.floor("C23.recognised", 2)


def stock_attributes():
    """attributes every instance of the stock pickler has, from the source of the pickle module"""
    with open(_pickle.__file__) as f:
        tree = ast.parse(f.read())
    out = set(dir(object))
    for c in tree.body:
        if isinstance(c, ast.ClassDef) and c.name == "_Pickler":
            for n in ast.walk(c):
                if isinstance(n, ast.FunctionDef):
                    out.add(n.name)
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                        isinstance(n.value, ast.Name) and n.value.id == "self":
                    out.add(n.attr)
            for st in c.body:
                if isinstance(st, ast.Assign):
                    out |= {t.id for t in st.targets if isinstance(t, ast.Name)}
    if "save_reduce" not in out or "memo" not in out:
        raise AnalysisError("pickle._Pickler not understood")
    return out


def receivers(ctx):
    """functions of the module that are handed the pickler: FuncInfo -> position of that parameter"""
    out, todo = {}, []

    def add(fi, i):
        if (fi.qual, i) not in out:
            out[fi.qual, i] = fi
            todo.append((fi, i))
    for fis in handlers(ctx).values():
        for fi in fis:
            add(fi, 0)
    while todo:
        fi, i = todo.pop()
        ps = [a.arg for a in fi.node.args.posonlyargs + fi.node.args.args]
        if i >= len(ps):
            continue
        for n in ast.walk(fi.node):
            if not isinstance(n, ast.Call) or not isinstance(n.func, ast.Name):
                continue
            for g in ctx.prog.funcs.get(D + n.func.id, ()):
                gps = [a.arg for a in g.node.args.posonlyargs + g.node.args.args]
                for j, a in enumerate(n.args):
                    if isinstance(a, ast.Name) and a.id == ps[i]:
                        add(g, j)
                for k in n.keywords:
                    if k.arg in gps and isinstance(k.value, ast.Name) and k.value.id == ps[i]:
                        add(g, gps.index(k.arg))
    return [(fi, i) for (q, i), fi in sorted(out.items(), key=lambda kv: kv[0])]


def guarded(st, what, attr_):
    for k, v in st.facts.items():
        if v is not True:
            continue
        s = show(k)
        if re.search(r"\b(is_dill)\(%s(, \w+)?\)$" % what, s) or s == "is_dill" or \
                s == "hasattr(%s, '%s')" % (what, attr_) or \
                s in ("isinstance(%s, %sPickler)" % (what, D), "%sPickler in %s.__class__.mro()" % (D, what)) or \
                s in ("'%s' in %s.__dict__" % (attr_, what),):
            return True
    return False


@rule("C23")
def state(ctx):
    R = "C23.state"
    stock = stock_attributes()
    n = 0
    for fi, i in receivers(ctx):
        if fi.qual == D + "is_dill" or is_helper(ctx, fi):
            continue        # a helper is judged where it is called
        ps = fi.node.args.posonlyargs + fi.node.args.args
        names = [a.arg for a in ps]
        names[i] = "pickler"
        if fi.qual == QUEUE:
            names = ["pickler", "reduction", "is_dill", "obj", "postproc_list"]
        seen = {}

        def read(st, b, name, _fi=None):
            if b.a[0] != "pickler" or name in stock or name.startswith("__"):
                return
            seen[name] = seen.get(name, True) and guarded(st, "pickler", name)
        try:
            for _ in run_with_closures(ctx, fi, names=names, onread=read,
                                       keep=lambda k, t, x=None: False,
                                       track=lambda t: "is_dill" in show(t) or "hasattr(pickler" in show(t)):
                pass
        except AnalysisError as e:
            if "state cap" not in str(e):
                raise
        n += 1
        ctx.ob(R, fi.qual, True, "", fi)
        for name, ok in sorted(seen.items()):
            ctx.ob(R, "%s .%s" % (fi.qual, name), ok,
                   "reads pickler.%s, which a stock pickler does not have, on a path where the pickler is not known "
                   "to be dill's" % name, fi)
    ctx.floor(R, 20)


SEQ = re.compile(r"(?:elem|loop|iter|each|reversed|len|list|tuple|set)\(getattr\(pickler, '(\w+)', None\)\)|"
                 r" in getattr\(pickler, '(\w+)', None\)|getattr\(pickler, '(\w+)', None\)[.\[]")


@rule("C23")
def defaults(ctx):
    """the substitute for a missing attribute can be used the way the attribute is"""
    R = "C23.defaults"
    stock = stock_attributes()
    for fi, i in receivers(ctx):
        names = [a.arg for a in fi.node.args.posonlyargs + fi.node.args.args]
        names[i] = "pickler"
        try:
            for f, p in run_with_closures(ctx, fi, names=names, track=lambda t: SEQ.search(show(t)),
                                          keep=lambda k, t, x=None: "getattr(pickler" in show(t)):
                texts = [show(k) for k in p.facts] + [show(e.t) for e in p.events] + \
                    [show(x) for e in p.events for x in e.loops if isinstance(x, tm.T)]
                facts = {show(k): v for k, v in p.facts.items()}
                for t in texts:
                    for m in SEQ.finditer(t):
                        a = next(x for x in m.groups() if x)
                        g = "getattr(pickler, '%s', None)" % a
                        if a in stock or facts.get(g) is True or facts.get(g + " is None") is False:
                            continue
                        ctx.ob(R, "%s .%s" % (fi.qual, a), False,
                               "a stock pickler has no %s, and its substitute None is used as a collection or object: %s" % (
                                   a, t[:100]), fi)
        except AnalysisError as e:
            if "state cap" not in str(e):
                raise
        ctx.ob(R, fi.qual, True, "", fi)
    ctx.floor(R, 20)


@rule("C23")
def deferred(ctx):
    """what save_function and save_type hand to the queue is written whatever the pickler is"""
    from .c09 import each, facts_of, queue_ops
    R = "C23.deferred"
    for fi in ctx.funcs(QUEUE):
        n = 0
        for p in ctx.paths(fi, ("pickler", "reduction", "is_dill", "obj", "postproc_list")):
            if p.ctl == "raise" and p.implicit:
                continue
            f = facts_of(p)
            isd = f.get("is_dill")
            if isd is None or f.get("is_dill is None"):
                isd = f.get(D + "is_dill(pickler, True)")
            if isd:
                continue
            ops = queue_ops(p)
            n += 1
            own = [o for o, e in ops if "pickler._postproc" in o]
            ctx.ob(R, fi.qual, not own, "the stock pickler has no queues: %s" % own, fi)
            empty = f.get("postproc_list is None") or f.get("postproc_list") is False or \
                f.get("len(postproc_list) == 0")
            if not empty:
                written = [o for o, e in ops if e.loops]
                skip = f.get("elem(postproc_list)[1][1]") is False or \
                    f.get("len(elem(postproc_list)[1][1]) == 0")
                ctx.ob(R, fi.qual + " (list)", bool(written) or bool(skip),
                       "the deferred assignments are dropped, so that the object is restored without them", fi)
        if not n:
            raise AnalysisError("no path of %s for a stock pickler" % fi.qual)
