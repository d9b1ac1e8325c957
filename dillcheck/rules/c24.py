"""C24: deferred calls and compatibility shims are stored as the call they stand for."""
import ast

from .. import terms as tm
from ..lib import OneOf, facts, module_level, result, run_with_closures, show
from ..program import AnalysisError
from . import rule

H = "dill._shims."


def stores(p):
    """(object, attribute or item, value) written on a path"""
    out = set()
    for e in p.events:
        if e.kind in ("setattr", "setitem"):
            k = e.x.a[0]
            out.add((show(e.t), tm.cval(k) if tm.is_const(k) and e.kind == "setattr" else "[%s]" % show(k), show(e.x.a[1])))
    return out


@rule("C24", also={"C07": ["C24.reduce"], "C09": ["C24.shim", "C24.names"]})
def shims(ctx):
    R = "C24.reduce"
    for fi in ctx.funcs(H + "Reduce.__new__"):
        kinds = set()
        for p in ctx.run(fi, names=("cls",), track=lambda a: True):
            if p.ctl == "raise":
                ctx.ob(R, fi.qual, p.implicit, "a deferred call is refused: %s" % result(p), fi)
                continue
            f = facts(p)
            called = [v for k, v in f.items() if "'is_callable'" in k or k == "is_callable"]
            want = "object.__new__(dill._shims.%s)" % ("_CallableReduce" if any(called) else "Reduce")
            kinds.add(bool(any(called)))
            ctx.ob(R, fi.qual + " kind", bool(called) and show(p.val) in (want, want.replace("object.", "super().").replace(
                "(dill", "(dill")), "a deferred call that %s function must be %s, it is %s" % (
                    "stands for a" if any(called) else "stands for no", want, show(p.val)), fi)
            ctx.ob(R, fi.qual, {(a, v) for o, a, v in stores(p) if o == show(p.val)} == {("reduction", "*args")} or
                   {(a, v) for o, a, v in stores(p)} == {("reduction", "**args")},
                   "the deferred call does not keep the whole reduction: %s" % sorted(stores(p)), fi)
        ctx.ob(R, fi.qual + " kinds", kinds == {True, False}, "callable and other deferred calls are not told apart", fi)
    for m, names, want in (
            ("Reduce.__reduce__", ("self",), ("ret self.reduction",)),
            ("Reduce.__reduce_ex__", ("self", "protocol"), ("ret self.__reduce__()", "ret self.reduction")),
            ("Reduce.__copy__", ("self",), ("ret self",)),
            ("Reduce.__deepcopy__", ("self", "memo"), ("ret self",))):
        for fi in ctx.funcs(H + m):
            ctx.table(R, fi, ctx.paths(fi, names), result, lambda A: OneOf(*want))
    for fi in ctx.funcs(H + "_CallableReduce.__call__"):
        r = ("self.__reduce__()", "self.reduction")
        want = ["ret %s[0](*%s[1])(%s, **=**kwds)" % (a, a, b) for a in r for b in ("*args", "**args")]
        ctx.table(R, fi, ctx.paths(fi, ("self",)), result, lambda A: OneOf(*want))
    R = "C24.shim"
    for fi in ctx.funcs(H + "Getattr"):
        def spec(A):
            d = A.any("default is dill._shims.Getattr.NO_DEFAULT", "dill._shims.Getattr.NO_DEFAULT is default")
            t = "(object, name)" if d else "(object, name, default)"
            return OneOf("ret dill._shims.Reduce(getattr, %s, is_callable=callable(default))" % t)
        ctx.table(R, fi, ctx.paths(fi, ("object", "name", "default")), result, spec)
    for fi in ctx.funcs(H + "register_shim"):
        for p in ctx.run(fi, names=("name", "default"), track=lambda a: True):
            if p.ctl == "raise":
                continue
            f = facts(p)
            d = next((v for k, v in f.items() if "Getattr.NO_DEFAULT" in k), None)
            none = next((v for k, v in f.items() if "globals()" in k and k.endswith(" is None")), None)
            if none is None:
                none = next((not v for k, v in f.items() if k in ("name in globals()", "get(globals(), name, None)")), None)
            mods = ("dill._shims._dill", "dill._dill")
            want = ["ret dill._shims.Reduce(getattr, (%s, name%s), is_callable=callable(default))" % (
                m, "" if d else ", default") for m in mods]
            ctx.ob(R, fi.qual, d is not None and result(p) in want, "a shim must be looked up in dill._dill under its name, with "
                   "the default if there is one: %s" % result(p), fi)
            st = stores(p)
            if none is False:
                ok = {a for o, a, v in st if o.endswith(("_dill.__dict__", "_dill.__dict__")) or o.endswith("_dill")} and \
                    any(a in ("[name]", "name", "<name>") for o, a, v in st if "_dill" in o and "globals()" in v)
                ctx.ob(R, fi.qual + " own", bool(ok) and any(a == "__module__" and v in [m + ".__name__" for m in mods] + [
                    "'dill._dill'"] for o, a, v in st), "an implementation of dill's own must be put into dill._dill under the "
                    "name of the shim: %s" % sorted(st), fi)
            else:
                ctx.ob(R, fi.qual + " default", none is True and not st, "without an implementation of its own nothing is put "
                       "into dill._dill: %s" % sorted(st), fi)
    for fi in ctx.funcs(H + "move_to"):
        n = 0
        for f2, p in run_with_closures(ctx, fi, names=("module", "name"), inner=("func",), track=lambda a: True):
            if p.ctl != "ret" or f2 is fi and "fn(" in show(p.val):
                continue
            n += 1
            none = facts(p).get("name is None")
            k = "func.__name__" if none else "name"
            st = stores(p)
            ok = none is not None and any(o in ("module.__dict__", "vars(module)") and a == "[%s]" % k and v == "func"
                                          for o, a, v in st)
            ok = ok or none is not None and ("module", "<%s>" % k, "func") in st
            ctx.ob(R, fi.qual, ok and show(p.val) == "func" and ("func", "__module__", "module.__name__") in st,
                   "a function that is moved must be found in the module under its name and know that: %s" % sorted(st), f2)
        if not n:
            raise AnalysisError("move_to moves nothing")
    R = "C24.names"
    want = {"_setattr": "setattr", "_delattr": "delattr", "_CELL_EMPTY": "None"}
    seen = {}
    for st in module_level(ctx.prog.modules["dill._shims"].tree):
        if isinstance(st, ast.Assign) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Name) and \
                st.value.func.id == "register_shim" and len(st.value.args) == 2:
            a = [ast.unparse(x) for x in st.value.args]

            class F:
                module, node = "dill._shims", st
            for t in st.targets:
                n = ast.unparse(t)
                seen[n] = a
                ctx.ob(R, "dill._shims." + n, a[0] == repr(n) and (n not in want or a[1] == want[n]),
                       "must be looked up under its own name with the standard implementation as default: %s" % a, F)
    ctx.ob(R, "dill._shims", bool(seen), "no shim is registered")
    ctx.floor("C24.names", 3)
