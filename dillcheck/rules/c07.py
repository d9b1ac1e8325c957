"""C07: wrapped callables; C08: plain built-in values."""
from ..lib import (OneOf, SKIP, closure_nodes, handler_table, handlers, pops, result, run_with_closures, show)
from ..program import AnalysisError
from . import rule

D = "dill._dill."
ABSTRACT = ("staticmethod", "classmethod", "abc.abstractstaticmethod", "abc.abstractclassmethod")


@rule("C07")
def handlers_(ctx):
    R = "C07.parts"

    def method(A):
        plain = ["reduce types.MethodType (obj.__func__, obj.__self__) obj=obj"]
        byname = ["reduce getattr (obj.__self__, obj.__name__) obj=obj"]
        same = A.get("getattr(obj.__self__, obj.__name__) == obj")
        if same is None:
            same = A.get("obj == getattr(obj.__self__, obj.__name__)")
        code = A.get("type(getattr(obj.__func__, '__code__', None)) is types.CodeType")
        return OneOf(plain, byname) if same and code is False else plain
    handler_table(ctx, R, ["MethodType"], method)
    handler_table(ctx, R, ["property", "abc.abstractproperty"], lambda A: [
        "reduce type(obj) (obj.fget, obj.fset, obj.fdel, obj.__doc__) obj=obj"])
    handler_table(ctx, R, ABSTRACT, lambda A: ["reduce type(obj) (obj.__func__,) obj=obj"])
    handler_table(ctx, R, ["SuperType"], lambda A: [
        "reduce super (obj.__thisclass__, obj.__self__) obj=obj"])

    def lru(A):
        old = A("dill._dill.OLD39")
        par = "(obj.cache_info().maxsize,)" if old else \
            "(obj.cache_parameters()['maxsize'], obj.cache_parameters()['typed'])"
        full = ["reduce dill._shims.Reduce(functools.lru_cache, %s, is_callable=True) (obj.__wrapped__,) obj=obj" % par]
        if A.get("%s == functools.lru_cache.__defaults__" % par):
            return OneOf(full, ["reduce functools.lru_cache (obj.__wrapped__,) obj=obj"])
        return full
    handler_table(ctx, R, ["LRUCacheType"], lru)
    handler_table(ctx, R, ["MemberDescriptorType", "GetSetDescriptorType", "MethodDescriptorType",
                           "WrapperDescriptorType", "ClassMethodDescriptorType"], lambda A: OneOf(
        ["reduce dill._dill._getattr (obj.__objclass__, obj.__name__, repr(obj)) obj=obj"]))


@rule("C07")
def rebuild(ctx):
    for fi in ctx.funcs(D + "_getattr"):
        ps = ctx.paths(fi, ("objclass", "name", "repr_str"))

        def spec(A):
            proxy = A("type(objclass.__dict__) is types.MappingProxyType")
            # (shortcut by the text of the descriptor; fails for anything but builtins)
            alts = ["ret eval(fmt(fv('', repr_str.split(\"'\")[3]) '.__dict__[\"' fv('', name) '\"]'))",
                    "raise AttributeError"]
            if proxy:
                alts += ["ret objclass.__dict__[name]", "ret getattr(objclass, name)"]
                if A.get("name == '__weakref__'") or A.get("name == '__dict__'"):
                    alts.append("ret dill._dill._dictproxy_helper.__dict__[name]")
            else:
                alts += ["ret getattr(objclass, name)", "ret objclass.__dict__[name]"]
            return OneOf(*alts)
        ctx.table("C07.descriptor", fi, ps, result, spec)
        D_ = "objclass.__dict__[name]"
        ps = ctx.paths(fi, ("objclass", "name", "repr_str"), excev=True)
        ctx.ob("C07.descriptor", fi.qual + " (class dictionary)", any(result(p) == "ret " + D_ for p in ps),
               "the descriptor in the class's own dictionary is never returned", fi)
        for p in ps:
            f = {show(k): v for k, v in p.facts.items()}
            if result(p) == "ret getattr(objclass, name)" and f.get(
                    "type(objclass.__dict__) is types.MappingProxyType"):
                exc = [show(e.x) for e in p.events if e.kind == "except" and e.x is not None]
                failed = len(exc) > 1 or "exc('KeyError')" in exc or \
                    f.get("name in objclass.__dict__") is False
                ctx.ob("C07.descriptor", fi.qual + " (fallback)", failed,
                       "the attribute lookup may run a descriptor or find another class's; it is only for names "
                       "that the class's dictionary does not have", fi, p.events[-1].line if p.events else 0)
    for fi in ctx.funcs(D + "_create_ftype"):
        ps = ctx.paths(fi, ("ftypeobj", "func", "args", "kwds"))

        def spec(A):
            a = "" if A("args is None") else ", *args"
            k = "" if A("kwds is None") else ", **=kwds"
            return "ret ftypeobj(func%s%s)" % (a, k)
        ctx.table("C07.rebuild", fi, ps, result, spec)
    # the shim that defers a call until loading
    for fi in ctx.funcs("dill._shims.Reduce.__new__"):
        ps = ctx.paths(fi, ("cls",))

        def shape(p):
            return [e for e in (show(e.t) + " " + show(e.x) for e in p.events if e.kind == "setattr")] + [
                p.ctl]
        ctx.ob("C07.shim", fi.qual, all(any("*args" in x for x in shape(p)) for p in ps
                                        if p.ctl == "ret"),
               "the deferred call does not keep its reduction", fi)


@rule("C08")
def values(ctx):
    R = "C08.parts"
    handler_table(ctx, R, ["SliceType"], lambda A: ["reduce slice (obj.start, obj.stop, obj.step) obj=obj"])
    handler_table(ctx, R, ["XRangeType", "EllipsisType", "NotImplementedType"], lambda A: [
        "reduce dill._dill._eval_repr (repr(obj),) obj=obj"])
    handler_table(ctx, R, ["DictProxyType"], lambda A: OneOf(
        ["reduce types.MappingProxyType (bitor(obj, dill._dill._dictproxy_helper_instance),) obj=obj"],
        ["reduce types.MappingProxyType ({**obj},) obj=obj"]))

    def alias(A):
        if A.any("str is type(obj.__reduce__())", "isinstance(obj.__reduce__(), str)"):
            return ["global obj name=obj.__reduce__()"]
        if A("obj.__origin__ is tuple") and (not A.any("obj.__args__", "!len(obj.__args__) == 0")
                                              or A("((),) == obj.__args__")):
            return ["reduce dill._dill._create_typing_tuple (obj.__args__,) obj=obj"]
        return ["reduce *obj.__reduce__() obj=obj"]
    handler_table(ctx, R, ["typing._GenericAlias"], alias)
    handler_table(ctx, R, ["ThreadHandleType"], lambda A: [
        "reduce dill._dill._create_thread_handle (obj.ident, obj.is_done()) obj=obj"])
    C = "ctypes.pythonapi.PyCapsule_"
    nm = C + "GetName(obj)"
    handler_table(ctx, R, ["PyCapsuleType"], lambda A: [
        "reduce dill._dill._create_capsule (%sGetPointer(obj, %s), %s, %sGetContext(obj), %sGetDestructor(obj)) obj=obj"
        % (C, nm, nm, C, C)])
    handler_table(ctx, R, ["ContextType"], lambda A: [
        "reduce _contextvars.Context tuple(obj.items()) obj=obj"])
    for t, n in (("dataclasses._HAS_DEFAULT_FACTORY_CLASS", "_HAS_DEFAULT_FACTORY"),
                 ("type(dataclasses.MISSING)", "MISSING"), ("type(dataclasses.KW_ONLY)", "KW_ONLY")):
        handler_table(ctx, R, [t], lambda A, n=n: [
            "write add(pickle.GLOBAL, %r)" % ("dataclasses\n%s\n" % n).encode()])
    handler_table(ctx, R, ["dataclasses._FIELD_BASE"], lambda A: [
        "write add(add(add(pickle.GLOBAL, b'dataclasses\\n'), obj.name.encode()), b'\\n')"])
    # in-memory text and byte streams (only where they need a handler)
    H = handlers(ctx)
    for t, f in (("InputType", "_create_stringi"), ("OutputType", "_create_stringo")):
        if t in H:
            def stream(A, f=f):
                if A("obj.closed"):
                    return ["reduce dill._dill.%s ('', 0, obj.closed) obj=obj" % f]
                return ["reduce dill._dill.%s (obj.getvalue(), obj.tell(), obj.closed) obj=obj" % f]
            handler_table(ctx, R, [t], stream)


VIEW = {
    "keys": ("reduce DT.keys (dill._shims.Reduce(DT.fromkeys, (list(obj),)),) obj=obj",
             "reduce DT.keys (dill._shims.Reduce(DT.fromkeys, ([**obj],)),) obj=obj"),
    "values": ("reduce DT.values (dill._shims.Reduce(DT, (enumerate(obj),)),) obj=obj",),
    "items": ("reduce DT.items (DT(obj),) obj=obj",),
}


@rule("C08")
def views(ctx):
    n = 0
    for fi in ctx.funcs(D + "save_dict_view"):
        for f, p in run_with_closures(ctx, fi, names=("dicttype",), inner=("pickler", "obj")):
            if p.ctl != "ret":
                continue
            for o in pops(p):
                n += 1
                o = o.replace("dicttype", "DT")
                o = o.replace("[splat(obj)]", "list(obj)").replace("[**obj]", "list(obj)")
                tail = " (bitor(obj.mapping, dill._dill._dictproxy_helper_instance),) obj=obj"
                trick = o.endswith(tail) and o[:-len(tail)] in (
                    "reduce func", "reduce DT.keys", "reduce DT.values", "reduce DT.items") or \
                    (o.startswith("reduce getattr(DT, ") and o.endswith(tail))
                known = trick or any(o in v for v in VIEW.values())
                ctx.ob("C08.views", "%s (line-independent %s)" % (fi.qual, o[:50]), known,
                       "a dictionary view is rebuilt by: %s" % o, f)
    if not n:
        raise AnalysisError("no dictionary view handler found")
    H = ctx.prog.modules["dill._dill"].tree
    import ast
    # keys with keys, values with values, items with items
    for fi in ctx.funcs(D + "save_dict_view"):
        nodes = list(closure_nodes(ctx, fi))
        for r in nodes:
            if isinstance(r, (ast.Tuple,)) and len(r.elts) == 2 and isinstance(r.elts[0], ast.Constant) \
                    and isinstance(r.elts[1], ast.Name):
                inner = next((x for x in nodes if isinstance(x, ast.FunctionDef) and
                              x.name == r.elts[1].id), None)
                if inner is None:
                    continue
                used = {a.attr for a in ast.walk(inner) if isinstance(a, ast.Attribute)}
                kind = r.elts[0].value
                ctx.ob("C08.view-kind", "%s %s" % (fi.qual, kind),
                       kind in used and not (({"keys", "values", "items"} - {kind}) & used),
                       "the handler registered for %s views rebuilds %s" % (
                           kind, sorted(used & {"keys", "values", "items"})), fi, r.lineno)


@rule("C08")
def view_types(ctx):
    """the views of plain and of ordered dictionaries, all three kinds, are given a handler"""
    import ast
    from ..lib import module_level
    for fi in ctx.funcs(D + "save_dict_view"):
        nodes = list(closure_nodes(ctx, fi))
        kinds = {c.value for c in nodes if isinstance(c, ast.Constant)}
        used = {c.id for c in nodes if isinstance(c, ast.Name)}
        kinds |= {a.value.value for a in ctx.prog.modules[fi.module].tree.body if isinstance(a, ast.Assign) and
                  isinstance(a.value, ast.Constant) and isinstance(a.targets[0], ast.Name) and a.targets[0].id in used}
        kinds &= {"keys", "values", "items"}
        kinds |= {a.attr for r in nodes if isinstance(r, ast.Return) for a in ast.walk(r)
                  if isinstance(a, ast.Attribute)} & {"keys", "values", "items"}
        ctx.ob("C08.view-kinds", fi.qual, len(kinds) == 3, "handlers are made for %s only" % sorted(kinds), fi)
    tree = ctx.prog.modules["dill._dill"].tree
    for loop in module_level(tree):
        if not isinstance(loop, ast.For) or not any(
                isinstance(c, ast.Call) and ast.unparse(c.func) == "save_dict_view" for c in ast.walk(loop)):
            continue
        calls = [c for c in ast.walk(loop) if isinstance(c, ast.Call) and
                 ast.unparse(c.func) == "save_dict_view" and len(c.args) == 1]
        if not isinstance(loop.target, ast.Name) or not calls or \
                not all(ast.unparse(c.args[0]) == loop.target.id for c in calls):
            continue

        class F:
            module, node = "dill._dill", loop
        if isinstance(loop.iter, (ast.Tuple, ast.List)):
            got = {ast.unparse(x).rpartition(".")[2] for x in loop.iter.elts}
            ctx.ob("C08.view-types", "dill._dill dictionary types", {"dict", "OrderedDict"} <= got,
                   "views of %s only get a handler" % sorted(got), F, loop.lineno)
        # a dictionary made to look at the types of its views is of the type in question
        local = {ast.unparse(st.targets[0]): st.value for st in ast.walk(loop)
                 if isinstance(st, ast.Assign) and len(st.targets) == 1}
        for c in ast.walk(loop):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "getattr" and \
                    isinstance(c.args[0], (ast.Name, ast.Call)):
                src = c.args[0]
                if isinstance(src, ast.Name):
                    src = local.get(src.id)
                if isinstance(src, ast.Call) and not src.args:
                    ctx.ob("C08.view-types", "dill._dill example dictionary",
                           ast.unparse(src.func) == loop.target.id,
                           "the type of the views is that of %s" % ast.unparse(src), F, c.lineno)
        for st in ast.walk(loop):
            if isinstance(st, ast.If) and isinstance(st.test, ast.Compare) and len(st.test.ops) == 1 and \
                    ast.unparse(st.test.comparators[0]).endswith("dispatch"):
                def stores(body):
                    return any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) for b in body
                               for x in ast.walk(b))
                neg = isinstance(st.test.ops[0], ast.NotIn)
                ctx.ob("C08.view-types", "dill._dill registration", not stores(st.body if not neg else st.orelse)
                       or stores(st.orelse if not neg else st.body),
                       "a view gets a handler only if it has one", F, st.lineno)


@rule("C08")
def special_types(ctx):
    W = "write add(pickle.GLOBAL, %r)"
    want = {"obj is type(None)": OneOf([W % b"__builtin__\nNoneType\n"]),
            D + "NotImplementedType is obj": OneOf(["reduce type (NotImplemented,) obj=obj"]),
            D + "EllipsisType is obj": OneOf(["reduce type (Ellipsis,) obj=obj"]),
            "enum.EnumMeta is obj": OneOf([W % b"enum\nEnumMeta\n"]),
            D + "ExceptHookArgsType is obj": OneOf([W % b"threading\nExceptHookArgs\n"])}
    from ..lib import matches
    from .c05 import class_paths, facts_of
    for fi in ctx.funcs(D + "save_type"):
        ps = class_paths(ctx, fi)
        for atom, exp in want.items():
            hit = [p for p in ps if facts_of(p).get(atom) and p.ctl == "ret" and
                   not facts_of(p).get("obj in dill._dill._typemap") and
                   not any(o.startswith(("reduce+ dill._dill._create_namedtuple",)) for o in pops(p))]
            ctx.ob("C08.types", "%s %s" % (fi.qual, atom), bool(hit), "no path handles %s" % atom, fi)
            for p in hit:
                got = pops(p)
                ctx.ob("C08.types", "%s %s" % (fi.qual, atom), matches(exp, got),
                       "stored as %s" % got, fi, p.events[-1].line if p.events else 0)
        reg = [p for p in ps if facts_of(p).get("obj in dill._dill._typemap")]
        for p in reg:
            ctx.ob("C08.types", fi.qual + " registry", pops(p) == [
                "reduce dill._dill._load_type (dill._dill._typemap[obj],) obj=obj"],
                "a registered type is stored as %s" % pops(p), fi)


@rule("C08")
def rebuilders(ctx):
    for q, names, spec in (
            ("_eval_repr", ("repr_str",), lambda A: OneOf("ret eval(repr_str)")),
            ("_create_typing_tuple", ("argz",), lambda A: (
                "ret typing.Tuple[()].copy_with(())" if not A("argz") else
                "ret typing.Tuple[()]" if A("((),) == argz") else "ret typing.Tuple[argz]")),
            ("_load_type", ("name",), lambda A: "ret dill._dill._reverse_typemap[name]")):
        for fi in ctx.funcs(D + q):
            ctx.table("C08.rebuild", fi, ctx.paths(fi, names), result, spec)
    for fi in ctx.prog.funcs.get(D + "_create_thread_handle", []):
        ps = ctx.paths(fi, ("ident", "done"))

        def th(p):
            return [result(p), any("_set_done()" in show(e.t) for e in p.events)]
        ctx.table("C08.rebuild", fi, ps, th, lambda A: [
            "ret threading._make_thread_handle(ident)", A("done")])
    for q, cls in (("_create_stringi", "io.BytesIO"), ("_create_stringo", "io.StringIO")):
        for fi in ctx.prog.funcs.get(D + q, []):
            ps = ctx.paths(fi, ("value", "position", "closed"))

            def io(p):
                return [e for e in (show(e.t).rpartition(".")[2] for e in p.events if e.kind == "call")
                        if e.startswith(("close", "seek", "write"))]

            def iospec(A):
                c = A("closed")

                def pred(got):
                    if c:
                        return "close()" in got
                    return "close()" not in got and "seek(position)" in got
                pred.__doc__ = "closed exactly if it was, else at its position"
                return pred
            ctx.table("C08.rebuild", fi, ps, io, iospec)
    for fi in ctx.funcs(D + "_create_capsule"):
        ps = ctx.paths(fi, ("pointer", "name", "context", "destructor"), track=None)
        new = "ctypes.pythonapi.PyCapsule_New(pointer, name, destructor)"
        for p in ps:
            if p.ctl != "ret":
                continue
            r = result(p)
            cs = [show(e.t) for e in p.events if e.kind == "call"]
            if "PyCapsule_New" in r:
                ok = r == "ret " + new and any(c == "ctypes.pythonapi.PyCapsule_SetContext(%s, context)" % new
                                               for c in cs)
                msg = "a new capsule must get pointer, name, destructor and context: " + r
            else:
                f = {show(k): v for k, v in p.facts.items()}
                ok = f.get("ctypes.pythonapi.PyCapsule_IsValid(%s, name)" % r[4:]) is True
                msg = "an attribute is returned that is not known to be a capsule of that name: " + r
            ctx.ob("C08.capsule", fi.qual, ok, msg, fi, p.events[-1].line if p.events else 0)
