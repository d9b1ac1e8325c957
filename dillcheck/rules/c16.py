"""C16: dill's dispatch table and pickle's are kept apart."""
import ast

from .. import terms as tm
from ..lib import OneOf, calls, module_writes, mutation, result, run_with_closures, show, sweep, write_keep, written
from ..program import AnalysisError
from . import rule

D = "dill._dill."
STOCKD = "pickle._Pickler.dispatch"
OURS = D + "Pickler.dispatch"
COPY = D + "pickle_dispatch_copy"


def simp(s, table):
    """loop element spellings: K and V for key and value of `table`"""
    for it in ("%s.items()" % table, "%s.copy().items()" % table):
        s = s.replace("elem(%s)[0]" % it, "K").replace("elem(%s)[1]" % it, "V")
    for it in ("%s.keys()" % table, "%s.copy()" % table, table):
        s = s.replace("elem(%s)" % it, "K")
    return s.replace("%s[K]" % table, "V").replace("%s.get(K)" % table, "V")


def table_ops(p, table, over):
    """what a path does to the entries of `table` (loop elements named after `over`)"""
    out = []
    for e in p.events:
        t = written(e)
        if t is None:
            continue
        if show(t) != table and not show(t).startswith(table + "["):
            if "dispatch" in show(t):
                out.append("!" + show(t))
            continue
        if e.kind == "setitem":
            k, v = e.x.a
            out.append("set %s=%s" % (simp(show(k), over), simp(show(v), over)))
        elif e.kind == "delitem":
            out.append("del " + simp(show(e.x), over))
        elif mutation(e)[0] == "pop":
            out.append("del " + simp(show(mutation(e)[1][0]), over))
        elif mutation(e)[0] == "update" and len(mutation(e)[1]) == 1:
            out.append("update " + simp(show(mutation(e)[1][0]), over))
        else:
            out.append("?%s %s" % (e.kind, show(e.x) if e.x is not None else ""))
    return out


def net(ops):
    """final effect on key K: None / 'del' / value"""
    r = None
    for o in ops:
        if o.startswith("set K="):
            r = o[6:]
        elif o == "del K":
            r = "del"
        else:
            return "? " + o
    return r


@rule("C16")
def extend(ctx):
    R = "C16.extend"
    for fi in ctx.funcs(D + "_extend"):
        ps = ctx.paths(fi, ())
        some = any(table_ops(p, STOCKD, OURS) for p in ps if not p.facts)
        for p in ps:
            if p.ctl == "raise":
                continue
            o = [x.replace(OURS + ".copy()", OURS) for x in table_ops(p, STOCKD, OURS)]
            if not o:
                # the loop was not entered
                ok = p.ctl == "ret" and any(OURS in show(k) for k in p.facts) or p.implicit or some and not p.facts
                ctx.ob(R, fi.qual, bool(ok), "nothing is copied into pickle's dispatch table", fi)
                continue
            ctx.ob(R, fi.qual, o in (["set K=V"], ["update " + OURS]),
                   "every registered type must be copied into pickle's table as it is: %s" % o, fi)
            # nothing may be left out
            sel = [show(k) for k, v in p.facts.items() if "elem(" in show(k)]
            ctx.ob(R, fi.qual + " (all types)", not sel, "some types are left out: depends on %s" % sel, fi)
    for fi in ctx.funcs(D + "_revert_extension"):
        ps = ctx.paths(fi, ())

        def outcome(p):
            return net(table_ops(p, STOCKD, STOCKD))

        def spec(A0):
            class B:
                pass
            known = {}
            for src in (A0.known, A0.extra):
                for k, v in src.items():
                    k2 = simp(k, STOCKD).replace("'dill._dill'", D + "__name__")
                    a, _, b = k2.partition(" == ")
                    known[k2] = v
                    if b:
                        known[b + " == " + a] = v
            own = known.get("V.__module__ == " + D + "__name__")
            had = known.get("K in " + COPY)
            if own is None:
                own2 = [v for k, v in known.items() if "V.__module__" in k or "__name__" in k]
                if own2:
                    def unknown(got):
                        """removal decided by the function's module"""
                        return False
                    return unknown

                def none(got):
                    """nothing removed"""
                    return got is None
                return none
            if not own:
                return None
            if had is None:
                g_ = [v for k, v in known.items() if COPY in k and "None" in k]

                def dflt(got):
                    """the entry of pickle's own table restored if there was one"""
                    return bool(g_) and got in ("del", "%s[K]" % COPY, "%s.get(K)" % COPY,
                                                "get(%s, K, None)" % COPY)
                return dflt
            return OneOf("%s[K]" % COPY, "get(%s, K, None)" % COPY) if had else "del"
        ctx.table("C16.revert", fi, ps, outcome, spec)
        for p in ps:
            # the table must not change while it is iterated over: a copy is iterated
            pass
        snap = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and
                   n.func.id in ("list", "tuple", "dict", "sorted", "set") or
                   isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "copy" or
                   isinstance(n, (ast.ListComp, ast.DictComp, ast.SetComp))
                   for q in [fi.node] + [f2.node for f2 in reach(ctx, fi)] for n in ast.walk(q))
        ctx.ob("C16.revert", fi.qual + " (snapshot)", snap,
               "the table is changed while it is iterated over", fi)
    for fi in ctx.funcs("dill.extend"):
        d = fi.node.args.defaults
        ctx.ob("C16.switch", fi.qual + " (default)", len(d) == 1 and getattr(d[0], "value", None) is True,
               "extend() without arguments must add dill's types", fi)
        ps = ctx.paths(fi, ("use_dill",))
        ctx.table("C16.switch", fi, ps, lambda p: calls(p),
                  lambda A: [D + "_extend()"] if A("use_dill") else [D + "_revert_extension()"])


def reach(ctx, fi):
    """helpers called by fi (by name)"""
    out = []
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            out += ctx.prog.funcs.get(fi.module + "." + n.func.id, [])
    return out


@rule("C16")
def copies(ctx):
    m = ctx.prog.modules["dill._dill"]
    found = 0
    for st in ast.walk(m.tree):
        if isinstance(st, ast.ClassDef) and st.name == "Pickler":
            for x in st.body:
                t = x.target if isinstance(x, ast.AnnAssign) else x.targets[0] if isinstance(x, ast.Assign) else None
                if isinstance(t, ast.Name) and t.id == "dispatch":
                    found += 1
                    v = x.value
                    ok = isinstance(v, ast.Call) and ast.unparse(v.func) == "MetaCatchingDict" and v.args and \
                        copied(v.args[0], True)
                    ctx.ob("C16.own-table", "dill._dill.Pickler.dispatch", ok,
                           "dill's table must be a copy of pickle's own table: %s" % ast.unparse(v))
    if not found:
        raise AnalysisError("no Pickler.dispatch")
    n = 0
    from ..lib import module_level
    for st in module_level(m.tree):
        if isinstance(st, (ast.Assign, ast.AnnAssign)):
            ts = st.targets if isinstance(st, ast.Assign) else [st.target]
            if any(isinstance(t, ast.Name) and t.id == "pickle_dispatch_copy" for t in ts):
                n += 1
                ctx.ob("C16.own-table", "dill._dill.pickle_dispatch_copy", copied(st.value, False),
                       "the saved table must be a copy of pickle's own table: %s" % ast.unparse(st.value))
    ctx.ob("C16.own-table", "pickle_dispatch_copy assigned once", n == 1, "assigned %d times" % n)
    # it must be taken before pickle's table can be extended
    names = [getattr(st, "name", None) or (st.targets[0].id if isinstance(st, ast.Assign) and
                                           isinstance(st.targets[0], ast.Name) else None)
             for st in m.tree.body]
    calls_ext = [i for i, st in enumerate(m.tree.body) if isinstance(st, ast.Expr) and
                 isinstance(st.value, ast.Call) and "_extend" in ast.unparse(st.value.func)]
    i = names.index("pickle_dispatch_copy") if "pickle_dispatch_copy" in names else 0
    ctx.ob("C16.own-table", "pickle_dispatch_copy taken first", all(i < j for j in calls_ext),
           "pickle's table is saved after it has been extended")


def copied(v, bare):
    s = ast.unparse(v)
    return s in ("StockPickler.dispatch.copy()", "dict(StockPickler.dispatch)", "{**StockPickler.dispatch}") or \
        (bare and s == "StockPickler.dispatch")       # the dict subclass copies by itself


WRITERS = {STOCKD: {D + "_extend", D + "_revert_extension"},
           OURS: {D + "pickle", D + "register", D + "register.proxy", D + "save_dict_view_for_function",
                  D + "_register_dict_view"}}


@rule("C16")
def ownership(ctx):
    keep = write_keep
    for fi, p in sweep(ctx, keep=keep):
        for e in p.events:
            t = written(e)
            if t is None:
                continue
            s = show(t)
            if s in (STOCKD, "pickle._Pickler.dispatch_table", "copyreg.dispatch_table", COPY,
                     "pickle.dispatch_table") or s.startswith((STOCKD + ".", STOCKD + "[")):
                ok = s == STOCKD and fi.qual in WRITERS[STOCKD]
                ctx.ob("C16.who-writes", "%s -> %s" % (fi.qual, s), ok,
                       "pickle's registry may only be written by extending or reverting it", fi, e.line)
            elif s == OURS:
                # registrations only ever add the handler for one type
                ctx.ob("C16.who-writes", "%s -> %s" % (fi.qual, s), e.kind == "setitem",
                       "entries of dill's table are only ever set", fi, e.line)
        ctx.ob("C16.who-writes", fi.qual, True, "", fi)
    for mod, st, t in module_writes(ctx):
        bad = t.startswith(("StockPickler.dispatch", "pickle_dispatch_copy", "copyreg.")) or \
            t.startswith("pickle.") and "dispatch" in t
        ctx.ob("C16.who-writes", "%s (import): %s" % (mod, t), not bad,
               "pickle's registry is changed at import without extending it", None, st.lineno)
    ctx.floor("C16.who-writes", 200)


@rule("C16")
def register(ctx):
    R = "C16.register"
    for fi in ctx.funcs(D + "pickle"):
        ps = ctx.paths(fi, ("t", "func"))
        ctx.table(R, fi, ps, lambda p: table_ops(p, OURS, OURS), lambda A: ["set t=func"])
    for fi in ctx.funcs(D + "register"):
        n = 0
        for f2, p in run_with_closures(ctx, fi, names=("t",), inner=("func",)):
            if f2 is fi:
                ctx.ob(R, fi.qual, p.ctl == "ret" and not [e for e in p.events if written(e) is not None],
                       "the type is registered before the handler is known", fi)
                continue
            n += 1
            if p.ctl == "raise" and p.implicit:
                continue
            ctx.ob(R, f2.qual, table_ops(p, OURS, OURS) == ["set t=func"] and result(p) == "ret func",
                   "registering must set the handler of the type and return the handler: %s, %s" % (
                       table_ops(p, OURS, OURS), result(p)), f2)
        if not n:
            raise AnalysisError("no decorator in register")
    for fi in ctx.funcs(D + "MetaCatchingDict.get"):
        ps = ctx.paths(fi, ("self", "key", "default"), excev=True)

        def outcome(p):
            exc = [show(e.t) for e in p.events if e.kind == "except"]
            return (result(p), tuple(exc))

        def spec(A):
            def pred(got):
                """self[key] (so that classes find the class handler), the default if that fails"""
                r, exc = got
                if exc:
                    return r == "ret default" and all("KeyError" in x or "LookupError" in x for x in exc)
                return r in ("ret self[key]", "ret self.__getitem__(key)")
            return pred
        ctx.table(R, fi, ps, outcome, spec)
    for fi in ctx.funcs(D + "MetaCatchingDict.__missing__"):
        ps = ctx.paths(fi, ("self", "key"))
        ctx.table(R, fi, ps, result, lambda A: "ret %ssave_type" % D if A.any(
            "issubclass(key, type)", "type in key.__mro__") else "raise KeyError")
