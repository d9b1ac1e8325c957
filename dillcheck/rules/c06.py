"""C06: what is pickled by reference."""
import itertools
import re

from .. import terms as tm
from ..lib import OneOf, SKIP, TRACK_ALL, norm, pops, reduction, result, show
from ..program import AnalysisError
from . import rule
from .c05 import class_paths, facts_of

D = "dill._dill."
MOD = "getattr(obj, '__module__', None)"
QUAL = ("getattr(obj, '__qualname__', getattr(obj, '__name__', None))", "obj.__qualname__",
        "getattr(obj, '__qualname__', obj.__name__)")
LOC = "dill._dill._locate_function(obj, pickler)"


@rule("C06")
def locate(ctx):
    for fi in ctx.funcs(D + "_locate_function"):
        ps = ctx.paths(fi, ("obj", "pickler"))
        imp = D + "_import_module(%s, True)"
        q = "ret %s_getattribute(%s, obj.__qualname__)[0] is obj" % (D, imp % MOD)
        n = "ret " + imp % ("fmt(fv('', %s) '.' fv('', obj.__name__))" % MOD) + " is obj"

        def outcome(p):
            r = result(p)
            return r

        def spec(A):
            if A.any(MOD + " == '__main__'") or A.any(MOD + " == None", MOD + " is None"):
                return "ret False"
            if A.any("pickler", "!pickler is None") and A(D + "is_dill(pickler, False)") and \
                    A("pickler._session") and A.any(MOD + " == pickler._main.__name__",
                                                     "pickler._main.__name__ == " + MOD):
                return "ret False"
            if A("hasattr(obj, '__qualname__')"):
                # False when the qualified name cannot be followed
                return OneOf(q, "ret False")
            return n
        ctx.table("C06.locate", fi, ps, outcome, spec)
        # the comparison must actually be made on some path
        ctx.ob("C06.locate-identity", fi.qual, any(result(p) == q for p in ps),
               "the object found under the qualified name is never compared with the object", fi)
        for p in ps:
            if p.ctl == "ret" and result(p) == "ret False":
                f = facts_of(p)
                if f.get("hasattr(obj, '__qualname__')"):
                    # only after a failed lookup
                    ctx.ob("C06.locate-failed", fi.qual,
                           any("_getattribute(" in show(e.t) for e in p.events if e.kind == "call") or
                           any("_import_module(" in show(e.t) for e in p.events if e.kind == "call"),
                           "says not locatable without looking", fi)
    for fi in ctx.funcs(D + "_getattribute"):
        ps = ctx.paths(fi, ("obj", "name"))
        loc = [p for p in ps if any(v and "'<locals>'" in show(k) for k, v in p.facts.items())]
        ctx.ob("C06.locals", fi.qual, bool(loc) and all(
            p.ctl == "raise" and "AttributeError" in result(p) for p in loc),
            "names inside a local scope must be refused with AttributeError", fi)
        steps = {result(p) for p in ps if p.ctl == "ret"}
        ctx.ob("C06.follow", fi.qual, steps == {"ret (getattr(obj, elem(name.split('.'))), obj)"},
               "each part of the qualified name must be looked up in turn on the object found so far, "
               "and the last object returned with its parent: %s" % sorted(steps)[:2], fi)


@rule("C06", "S04", "C21")
def import_module(ctx):
    for fi in ctx.funcs(D + "_import_module"):
        ps = ctx.paths(fi, ("import_name", "safe"))

        def spec(A):
            if A("import_name.startswith('__runtime__.')"):
                return "runtime"
            return "dotted" if A("'.' in import_name") else "plain"

        def outcome(p):
            f = facts_of(p)
            r = result(p)
            return r
        OBJ = ("import_name.split('.')[-1]", "import_name.rpartition('.')[2]", "import_name.rpartition('.')[-1]",
               "import_name.rsplit('.', 1)[1]", "import_name.rsplit('.', 1)[-1]")

        def ok_dotted(got, A):
            """the attribute of the imported parent, the current entry of the module table, or the module itself"""
            if not got.startswith("ret "):
                return False
            if got == "ret sys.modules[import_name]":
                return True
            got = got[4:]
            for o in OBJ:
                if got == "__import__(import_name, None, None, [%s])" % o:
                    return True
                if got.startswith("getattr(__import__(") and got.endswith("[%s]), %s)" % (o, o)):
                    # the attribute may be stale where the module table has been changed for the moment
                    return A.get("isinstance(%s, types.ModuleType)" % got) is False or \
                        A.get("isinstance(%s, type)" % got) is True or \
                        A.get("import_name in sys.modules") is False
                if got.startswith("get(sys.modules, import_name, getattr(__import__(") or \
                        got.startswith("sys.modules.get(import_name, getattr(__import__("):
                    return True
            return False

        def tspec(A):
            failed = [OneOf("ret None")]
            k = spec(A)
            alts = ["ret None", "raise *", "raise KeyError", "raise ImportError", "raise AttributeError"]
            if k == "runtime":
                alts.append("ret sys.modules[import_name]")
            elif k == "plain":
                alts.append("ret __import__(import_name)")
            else:
                alts.append(lambda got: ok_dotted(got, A))
            return OneOf(*alts)
        ctx.table("C06.import", fi, ps, outcome, tspec)
        for p in ps:
            if result(p) == "ret None":
                f = facts_of(p)
                ctx.ob("C06.import-safe", fi.qual, f.get("safe") is True,
                       "returns None for a failed import although not asked to be safe", fi,
                       p.events[-1].line if p.events else 0)
        rs = {result(p) for p in ps}
        ctx.ob("C06.import-safe", fi.qual + " (safe)", "ret None" in rs,
               "a failed import is never reported as None", fi)
        caught = set()
        for p in ctx.run(fi, ("import_name", "safe"), track=TRACK_ALL, excev=True):
            if result(p) == "ret None":
                for e in p.events:
                    if e.kind == "except":
                        caught.update(re.findall(r"\w+", show(e.t)) or ["BaseException"])
        for x, wider in (("ImportError", ()), ("AttributeError", ()), ("KeyError", ("LookupError",)), ("ValueError", ())):
            ctx.ob("C06.import-safe", "%s (%s)" % (fi.qual, x), caught & ({x, "Exception", "BaseException"} | set(wider)),
                   "%s of a module that cannot be found is not reported as None" % x, fi)


def ops_kinds(p, maker):
    """what a path does with the object: 'ref', 'value', 'other'"""
    out = []
    for o in pops(p):
        if o.startswith("global obj "):
            out.append("ref")
        elif any(o.startswith(x) for x in maker):
            out.append("value")
        elif not o.startswith(("write", "reduce setattr")):
            out.append("other")
    return out


@rule("C06")
def functions(ctx):
    for q, maker in (("save_function", ("reduce+ dill._dill._create_function",)),
                     ("save_classobj", ("reduce type ", "reduce dill._dill.ClassType"))):
        for fi in ctx.funcs(D + q):
            ps = ctx.run(fi, ("pickler", "obj"), keep=lambda k, t, x=None: k == "call" and (
                "save_" in show(t) or "_save_with" in show(t)),
                track=lambda t: "_locate_function" in show(t))

            def outcome(p):
                k = ops_kinds(p, maker)
                bad = [o for o in pops(p) if o.startswith("global") and
                       o not in ["global obj name=" + n for n in QUAL]]
                return k[:1] + bad

            def spec(A):
                return ["ref"] if A(LOC) else OneOf(["value"], ["other"])
            ctx.table("C06.by-reference", fi, ps, outcome, spec)


def warned(p):
    out = []
    for e in p.events:
        if e.kind == "call" and show(e.t.a[0]) == "warnings.warn":
            a = [show(x) for x in tm.cargs(e.t)] + ["%s=%s" % (k, show(v)) for k, v in tm.ckw(e.t).items()]
            if any("PicklingWarning" in x for x in a):
                out.append("recursion" if "recursive" in a[0] else
                           "locate" if "locate" in a[0] else a[0][:60])
    return out


@rule("C06")
def classes(ctx):
    BY = "getattr(pickler, '_byref', None)"
    REC = ("id(obj) in getattr(pickler, '_postproc', ())",)
    for fi in ctx.funcs(D + "save_type"):
        ps = class_paths(ctx, fi)
        n = 0
        special = ("obj in dill._dill._typemap", "(tuple,) == obj.__bases__")
        for p in ps:
            if p.ctl == "raise":
                continue
            f = facts_of(p)
            o = pops(p)
            ref = [x for x in o if x.startswith("global obj")]
            val = [x for x in o if x.startswith("reduce+") and
                   ("_create_type" in x or "new_class" in x)]
            if not ref and not val:
                continue
            n += 1
            loc, by = f.get(LOC), f.get(BY)
            rec = next((f[x] for x in REC if x in f), None)
            bad = []
            if val:
                if not (loc is False and by is False and rec is False):
                    bad.append("stored by value although %s" % ", ".join(
                        t for t, c in (("it can be located", loc is not False),
                                       ("classes by reference were requested", by is not False),
                                       ("storing it would recurse", rec is not False)) if c))
            else:
                if not (loc is True or by is True or rec is True):
                    bad.append("stored by reference although it cannot be found, by-reference was "
                               "not requested and it is not recursive")
                if [x for x in ref if x not in ["global obj name=" + q for q in QUAL]]:
                    bad.append("stored under the name %s" % ref)
                w = warned(p)
                if (loc is False) != ("locate" in w) and loc is not None:
                    bad.append("warning about a class that cannot be located is %s" % (
                        "missing" if loc is False else "emitted for one that can be"))
                if rec is not None and rec != ("recursion" in w):
                    bad.append("warning about recursion is %s" % ("missing" if rec else "unfounded"))
                if loc is None or rec is None:
                    if loc is None and "locate" not in w:
                        bad.append("stored by reference without checking that it can be located")
                    if rec is None and "recursion" not in w:
                        bad.append("stored by reference without checking for recursion")
            ctx.ob("C06.class", fi.qual, not bad, "; ".join(bad), fi, p.events[-1].line)
        if not n:
            raise AnalysisError("save_type has neither a by-value nor a by-reference path")
