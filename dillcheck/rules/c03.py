"""C03: functions pickled by value."""
import functools

from .. import terms as tm
from ..lib import (OneOf, SKIP, calls, dict_items, norm, reduction, result, show, unident)
from ..program import AnalysisError
from . import rule

NAMES = ("pickler", "obj")
PP = "getattr(pickler, '_postproc', ())"
MM = "getattr(pickler, '_main_modified', None)"
OM = "getattr(pickler, '_original_main', builtins)"
MAIN = "getattr(pickler, '_main', %s).__dict__" % OM
GV = "dill.detect.globalvars(obj, True, True)"
IMP = "getattr(dill._dill._import_module(obj.__module__, True), '__dict__', None)"


def byvalue(p):
    rs = [r for r in (reduction(e) for e in p.events) if r]
    return [r for r in rs if r["func"] is not None and
            show(r["func"]) == "dill._dill._create_function"]


def is_create_path(p):
    return bool(byvalue(p))


def state_map(r):
    """attribute -> value text set on the rebuilt function"""
    t = r["state"]
    out = {}
    if t is tm.NONE:
        return out
    t = unident(t)
    parts = t.a if t.op == "tuple" and len(t.a) == 2 else (t, tm.NONE)
    if parts[0] is not tm.NONE:
        out["__dict__"] = show(unident(parts[0])).replace("@", "")
    if parts[1] is not tm.NONE:
        m = dict_items(parts[1])
        if m is None:
            return {"?": show(parts[1])}
        for k, v in m.items():
            out[k] = norm(show(v))
    return out


@functools.lru_cache(None)
def tracked(t):
    s = show(t)
    return "co_consts" in s or MM in s or OM in s or "_import_module" in s or \
        "obj.__module__" in s or "obj.__globals__ is None" in s or "_locate_function" in s


@rule("C03")
def save_function(ctx):
    for fi in ctx.funcs("dill._dill.save_function"):
        ps = ctx.run(fi, NAMES, keep=lambda k, t, x=None: k == "call" and "trace" not in
                     str(t.a[0].a[-1] if t.a[0].op in ("attr", "g") else ""),
                     track=tracked, ids=True)
        val = [p for p in ps if is_create_path(p)]
        if not val:
            raise AnalysisError("save_function never reduces to _create_function")

        def parts(p):
            out = []
            for r in byvalue(p):
                a = r["args"]
                if a is None or a.op != "tuple":
                    out.append("args %s" % (a is not None and show(a)))
                    continue
                xs = [show(unident(x)).replace("@", "") for x in a.a]
                xs += ["None"] * (7 - len(xs))
                xs[1] = "globs"
                out.append("(%s) obj=%s" % (", ".join(xs), show(r["obj"])))
            return out
        ctx.table("C03.parts", fi, val, parts, lambda A: [
            "(obj.__code__, globs, obj.__name__, obj.__defaults__, obj.__closure__, None, None) obj=obj"])

        def state(p):
            r = byvalue(p)[0]
            s = state_map(r)
            g = dict_items(r["args"].a[1])
            s["globs __name__"] = None
            if g is not None and "__name__" in g:
                s["globs __name__"] = show(g["__name__"])
            return s

        def sspec(A):
            want = {"__dict__": "obj.__dict__"}
            opt = {}
            if A("getattr(obj, '__doc__', None) is None"):
                c = "getattr(obj.__code__, 'co_consts', None)"
                if A.any(c, "obj.__code__.co_consts"):
                    if A.any("isinstance(%s[0], str)" % c, "isinstance(obj.__code__.co_consts[0], str)"):
                        want["__doc__"] = "None"
                    else:
                        opt["__doc__"] = "None"
                else:
                    opt["__doc__"] = "None"
            else:
                want["__doc__"] = "obj.__doc__"
            for n in ("__kwdefaults__", "__annotations__"):
                if A("getattr(obj, '%s', None) is None" % n):
                    opt[n] = "None"
                else:
                    want[n] = "obj." + n
            if A("obj.__name__ == obj.__qualname__"):
                opt["__qualname__"] = "obj.__qualname__"
            else:
                want["__qualname__"] = "obj.__qualname__"

            def pred(got):
                got = dict(got)
                gname = got.pop("globs __name__")
                o = dict(opt)
                # the module: stored unless the globals name it
                w = dict(want)
                mod = got.pop("__module__", None)
                if mod not in (None, "obj.__module__"):
                    return False
                if mod is None and gname != "obj.__module__":
                    same = [k for k in A.known if "'__name__'" in k and
                            "== obj.__module__" in k and A.known[k]]
                    if not same:
                        return False
                for k, v in w.items():
                    if got.pop(k, None) != v:
                        return False
                for k, v in o.items():
                    if k in got and got.pop(k) != v:
                        return False
                return not got
            pred.__doc__ = "state %s, __module__ unless the globals name it" % sorted(want.items())
            return pred
        ctx.table("C03.state", fi, val, state, sspec)

        def globs(p):
            r = byvalue(p)[0]
            gterm = r["args"].a[1]
            fresh = gterm.op == "ident"
            txt = show(gterm).replace("@", "")
            deferred = []
            pp = unident(r["pp"])
            if pp.op == "list":
                deferred += [("list", x) for x in pp.a]
            elif pp is not tm.NONE:
                deferred.append(("list?", pp))
            for e in p.events:
                f = e.t.a[0]
                if e.kind == "call" and f.op == "attr" and f.a[1] == "append" and \
                        "_postproc" in show(f.a[0]):
                    deferred.append((show(f.a[0]), tm.cargs(e.t)[0]))
            ds = []
            for where, d in deferred:
                if d.op == "tuple" and len(d.a) == 2 and show(d.a[0]) == "dill._dill._setitems" \
                        and d.a[1].op == "tuple" and len(d.a[1].a) == 2:
                    dst, src = d.a[1].a
                    ds.append("%s fill %s from %s" % (
                        "own" if where == "list" else "earlier",
                        "the same dict" if dst is gterm else "ANOTHER dict " + show(dst),
                        show(src).replace("@", "")))
                else:
                    ds.append("%s %s" % (where, show(d)))
            return (("fresh " if fresh else "") + txt, ds)

        def gspec(A):
            fresh = "fresh {'__name__': obj.__module__}"
            if A("getattr(pickler, '_recurse', None)"):
                src, empty = GV, A(GV + " is None")
            elif A(MM) and A(OM + ".__dict__ is obj.__globals__"):
                return (MAIN, [])
            else:
                empty = A("obj.__globals__ is None")
                if not empty and not A("obj.__module__ is None") and \
                        A(IMP + " is obj.__globals__"):
                    return ("obj.__globals__", [])
                src = "obj.__globals__"
            if empty:
                return OneOf((fresh, []))
            ids = "elem(%s) in {each(loop(%s.values()), id(elem(%s.values())))}" % (PP, src, src)
            if A.get(ids):
                return (fresh, ["earlier fill the same dict from " + src])
            return (fresh, ["own fill the same dict from " + src])
        ctx.table("C03.globals", fi, val, globs, gspec)

        def pypy(p):
            return [show(r["func"]) for r in (reduction(e) for e in p.events) if r and
                    show(r["func"]) not in ("setattr",)]
        ctx.table("C03.kind", fi, ps, lambda p: bool(byvalue(p)) or None, lambda A: (
            OneOf(None) if A("dill._dill._locate_function(obj, pickler)") else
            (True if A("type(obj.__code__) is types.CodeType") else OneOf(True, None))))


@rule("C03")
def create_function(ctx):
    N = ("fcode", "fglobals", "fname", "fdefaults", "fclosure", "fdict", "fkwdefaults")
    for fi in ctx.funcs("dill._dill._create_function"):
        ps = ctx.paths(fi, N)

        def outcome(p):
            f = show(p.val)
            got = {"result": f}
            for e in p.events:
                s = show(e.t)
                if e.kind == "setattr" and s == f:
                    got["." + tm.cval(e.x.a[0])] = show(e.x.a[1])
                elif e.kind == "setitem" and s == f + ".__globals__":
                    got["globals[%s]" % show(e.x.a[0])] = show(e.x.a[1])
                elif e.kind == "call" and s == f:
                    pass
                elif e.kind in ("call", "mut", "setitem", "setattr"):
                    t = s if e.kind == "call" else "%s %s %s" % (e.kind, s, show(e.x))
                    got.setdefault("other", []).append(t.replace(f, "func"))
            return got

        def spec(A):
            fg = "fglobals"
            if not A("fglobals"):
                fg = "{}"
            f = "types.FunctionType(fcode, %s, fname, fdefaults, fclosure)" % fg
            want = {"result": f}
            if not A("fkwdefaults is None"):
                want[".__kwdefaults__"] = "fkwdefaults"
            has = "'__builtins__' in %s.__globals__" % f
            upd = ["mut func.__dict__ ('update', fdict)"]
            fd = A("fdict is None")

            def pred(got):
                got = dict(got)
                oth = [x for x in got.pop("other", []) if not x.startswith("globals()")]
                if not fd:
                    if upd[0] not in oth:
                        return False
                    oth.remove(upd[0])
                b = got.pop("globals['__builtins__']", None)
                if b is None:
                    sd = [x for x in oth if "setdefault" in x and "'__builtins__'" in x and
                          x.startswith("func.__globals__")]
                    if sd:
                        oth.remove(sd[0])
                    elif A.get(has) is not True:
                        return False
                elif "builtins" not in b or A.get(has) is True:
                    return False
                return got == want and not oth
            pred.__doc__ = "the function built from all parts%s, its __dict__ updated and builtins available" % (
                " " + str(want))
            return pred
        ctx.table("C03.create", fi, ps, outcome, spec)
    for fi in ctx.funcs("dill._dill._setitems"):
        ps = ctx.paths(fi, ("dest", "source"))
        ctx.table("C03.setitems", fi, ps, lambda p: [
            "%s %s %s" % (e.kind, show(e.t), show(e.x) if e.x is not None else "") for e in p.events],
            lambda A: OneOf(["setitem dest (elem(source), source[elem(source)])"],
                            ["call dest.update(source) "]))
