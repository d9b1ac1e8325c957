"""C01: option resolution and forwarding."""
import ast

from ..lib import (module_level, OneOf, SKIP, attrs, calls, callee_is, result, show, sweep)
from ..program import AnalysisError
from . import rule

SET = "dill.settings.settings"
PK, UP = "dill._dill.Pickler", "dill._dill.Unpickler"


def st(name):
    return "%s['%s']" % (SET, name)


def opt(A, name):
    """value of option `name` taken from the keywords of __init__"""
    v = "popped(**kwds, '%s', None)" % name
    return st(name) if A("%s is None" % v) else v


@rule("C01")
@rule("C20")
def constructors(ctx):
    for cls, names, opts in ((PK, ("self", "file"), ("byref", "fmode", "recurse")),
                             (UP, ("self",), ("ignore",))):
        for fi in ctx.funcs(cls + ".__init__"):
            ps = ctx.paths(fi, names, self_type=cls)

            def outcome(p):
                a = attrs(p)
                return [a.get("_" + o, "(not set)") for o in opts]

            def spec(A):
                return [opt(A, o) for o in opts]
            ctx.table("C01.resolve", fi, ps, outcome, spec)

            stock = "pickle._Pickler.__init__" if cls == PK else "pickle.Unpickler.__init__"
            want = "%s(%s, **args, **=**kwds)" % (stock, ", ".join(names))

            def forwarded(p):
                # the stock constructor gets everything except dill's own options
                out = []
                popped = set()
                for e in p.events:
                    if e.kind == "mut" and show(e.t) == "**kwds":
                        k = show(e.x)
                        popped.add(k.split(",")[1].strip(" '\")"))
                    elif e.kind == "call" and show(e.t).startswith(stock):
                        out.append(show(e.t))
                        out.append("after removing " + " ".join(sorted(popped)))
                return out
            ctx.table("C01.stock", fi, ps, forwarded,
                      lambda A: [want, "after removing " + " ".join(sorted(opts))])


@rule("C01")
@rule("C20")
def shorthands(ctx):
    D = "dill._dill."
    inl = frozenset(D + x for x in ("dump", "dumps", "load", "loads"))
    pick = callee_is(PK, ".dump", UP, ".load", "io.BytesIO", ".getvalue", D + "dumps", D + "dump")

    def proto(A):
        return st("protocol") if A("protocol is None") else OneOfText("int(protocol)", "protocol")

    class OneOfText(tuple):
        def __new__(cls, *a):
            return tuple.__new__(cls, a)

    def outs(fmt, A):
        p = proto(A)
        if isinstance(p, tuple):
            return OneOf(*[[x % p1 if "%s" in x else x for x in fmt] for p1 in p])
        return [x % p if "%s" in x else x for x in fmt]

    for fi in ctx.funcs(D + "dump"):
        ps = ctx.paths(fi, ("obj", "file", "protocol", "byref", "fmode", "recurse"), inline=inl)
        c = PK + "(file, %s, byref=byref, fmode=fmode, recurse=recurse, **=**kwds)"
        ctx.table("C01.forward", fi, ps, lambda p: calls(p, pick),
                  lambda A: outs([c, c + ".dump(obj)"], A))
    for fi in ctx.funcs(D + "dumps"):
        ps = ctx.paths(fi, ("obj", "protocol", "byref", "fmode", "recurse"), inline=inl)
        c = PK + "(io.BytesIO(), %s, byref=byref, fmode=fmode, recurse=recurse, **=**kwds)"
        ctx.table("C01.forward", fi, ps, lambda p: calls(p, pick) + [result(p)],
                  lambda A: outs(["io.BytesIO()", c, c + ".dump(obj)",
                                  "io.BytesIO().getvalue()", "ret io.BytesIO().getvalue()"], A))
    for fi in ctx.funcs(D + "load"):
        ps = ctx.paths(fi, ("file", "ignore"), inline=inl)
        ctx.table("C01.forward", fi, ps, result,
                  lambda A: "ret " + UP + "(file, ignore=ignore, **=**kwds).load()")
    for fi in ctx.funcs(D + "loads"):
        ps = ctx.paths(fi, ("str", "ignore"), inline=inl)
        ctx.table("C01.forward", fi, ps, result,
                  lambda A: "ret " + UP + "(io.BytesIO(str), ignore=ignore, **=**kwds).load()")
    for fi in ctx.funcs(D + "copy"):
        ps = ctx.paths(fi, ("obj",), inline=inl - {D + "dumps"})
        ld = "ret " + UP + "(io.BytesIO(dill._dill.dumps(obj, **args, **=**kwds)), ignore=%s).load()"
        ig = "popped(**kwds, 'ignore', %s)"

        def spec(A):
            return OneOf(ld % (ig % st("ignore")), ld % (ig % "None"))
        ctx.table("C01.forward", fi, ps, result, spec)

        def order(p):
            # the options are forwarded after 'ignore' has been taken out
            seen = []
            for e in p.events:
                if e.kind == "mut" and show(e.t) == "**kwds":
                    seen.append("take ignore")
                elif e.kind == "call" and show(e.t).startswith("dill._dill.dumps("):
                    seen.append("dumps")
            return seen
        ctx.table("C01.copy-order", fi, ps, order, lambda A: ["take ignore", "dumps"])
    for fi in ctx.funcs(PK + ".dump"):
        ps = ctx.paths(fi, ("self", "obj"), self_type=PK)
        ctx.table("C01.forward", fi, ps,
                  lambda p: [c for c in calls(p) if c.startswith("pickle._Pickler.dump(")],
                  lambda A: ["pickle._Pickler.dump(self, obj)"])


def settings_writes(e):
    """is the event a write to the global settings table?"""
    if e.kind in ("setitem", "delitem", "mut", "setattr", "delattr"):
        t = show(e.t)
        return t == SET or (t == "dill.settings" and e.kind in ("setattr", "delattr"))
    if e.kind == "storeglobal":
        return show(e.t) == SET
    return False


@rule("C01")
def ownership(ctx):
    keep = lambda k, t, x=None: k != "call"
    for fi, p in sweep(ctx, keep=keep):
        bad = [e for e in p.events if settings_writes(e)]
        ctx.ob("C01.settings-readonly", fi.qual, not bad,
               "writes the global settings", fi, bad[0].line if bad else 0)
    m = ctx.prog.modules.get("dill.settings")
    if m is None:
        raise AnalysisError("no module dill.settings")


@rule("C01")
def defaults(ctx):
    """the settings start as documented"""
    m = ctx.prog.modules["dill.settings"]
    tabs = [n for n in module_level(m.tree) if isinstance(n, ast.Assign) and ast.unparse(n.targets[0]) == "settings"]
    if len(tabs) != 1:
        raise AnalysisError("the settings table is not a single assignment")

    class F:
        module, node = "dill.settings", tabs[0]
    v = tabs[0].value
    got = {}
    if isinstance(v, ast.Dict):
        got = {k.value: x for k, x in zip(v.keys, v.values) if isinstance(k, ast.Constant)}
    elif isinstance(v, ast.Call) and ast.unparse(v.func) == "dict" and not v.args:
        got = {k.arg: k.value for k in v.keywords}
    else:
        raise AnalysisError("the settings table is not a dictionary display")
    for k in ("protocol", "byref", "fmode", "recurse", "ignore"):
        x = got.get(k)
        if k == "protocol":
            ok = x is not None and ast.unparse(x) in ("DEFAULT_PROTOCOL", "pickle.DEFAULT_PROTOCOL")
        else:
            ok = isinstance(x, ast.Constant) and not x.value or x is not None and ast.unparse(x) == "HANDLE_FMODE"
        ctx.ob("C01.settings-default", "settings[%r]" % k, ok, "starts as %s" % (x and ast.unparse(x)), F)
