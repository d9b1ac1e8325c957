"""C14: compatibility with older pickles; C15: the registries of type names."""
import ast

from .. import terms as tm
from ..lib import OneOf, pops, result, show, sweep
from ..program import AnalysisError
from . import rule

D = "dill._dill."

# reconstruction functions named in existing pickles: the positional argument
# counts released versions have written
HISTORY = {
    "_create_type": [1, 3, 4], "_create_function": [2, 5, 6, 7], "_create_code": [14, 15, 16, 18, 20, 22],
    "_create_ftype": [4], "_create_typing_tuple": [1], "_create_lock": [1, 2], "_create_rlock": [2, 3],
    "_create_filehandle": [8], "_create_stringi": [3], "_create_stringo": [3], "_create_cell": [0, 1],
    "_create_weakref": [1, 2], "_create_weakproxy": [1, 2, 3], "_create_array": [3, 4],
    "_create_dtypemeta": [1], "_create_namedtuple": [3, 4], "_create_capsule": [4],
    "_eval_repr": [1], "_getattr": [3], "_get_attr": [2], "_import_module": [1, 2], "_load_type": [1],
    "_unmarshal": [1], "_setitems": [2],
}
# types whose registry names occur in existing pickles
TYPES = {"PartialType", "SuperType", "ItemGetterType", "AttrGetterType", "CellType", "FileType",
         "BufferedRandomType", "BufferedReaderType", "BufferedWriterType", "TextWrapperType",
         "PyBufferedRandomType", "PyBufferedReaderType", "PyBufferedWriterType", "PyTextWrapperType",
         "DictKeysType", "DictValuesType", "DictItemsType", "OdictKeysType", "OdictValuesType",
         "OdictItemsType", "ExitType", "InputType", "OutputType", "GenericAliasIteratorType", "HKEYType",
         "PyCapsuleType"}
GLOBALS = {"_CELL_EMPTY", "_CELL_REF", "_dictproxy_helper", "_dictproxy_helper_instance", "Pickler",
           "Unpickler", "Sentinel"}


def accepts(node, n):
    a = node.args
    pos = len(a.posonlyargs) + len(a.args)
    if a.kwonlyargs and any(d is None for d in a.kw_defaults):
        return False
    return pos - len(a.defaults) <= n and (n <= pos or a.vararg is not None)


@rule("C14")
def reconstructors(ctx):
    m = ctx.prog.modules["dill._dill"]
    for name, counts in sorted(HISTORY.items()):
        r = ctx.prog.resolve("dill._dill", name) if name in m.bindings else None
        fis = ctx.prog.funcs.get(r.a[0], []) if r is not None and r.op == "g" else []
        ctx.ob("C14.exists", D + name, name in m.bindings,
               "existing pickles refer to it and it is gone")
        for fi in fis:
            for n in counts:
                ctx.ob("C14.signature", "%s with %d arguments" % (D + name, n), accepts(fi.node, n),
                       "existing pickles call it with %d positional arguments" % n, fi)
    for name in sorted(GLOBALS):
        ctx.ob("C14.exists", D + name, name in m.bindings, "existing pickles refer to it and it is gone")
    for name in ("_setattr", "_delattr", "_CELL_EMPTY", "Reduce", "Getattr"):
        ctx.ob("C14.exists", "dill._shims." + name, name in ctx.prog.modules["dill._shims"].bindings,
               "older pickles refer to it and it is gone")


@rule("C14")
def behaviour(ctx):
    R = "C14.rebuild"
    for q, names, spec in (
            ("_create_type", ("typeobj",), lambda A: "ret typeobj(**args)"),
            ("_unmarshal", ("string",), lambda A: "ret marshal.loads(string)"),
            ("_get_attr", ("self", "name"), lambda A: OneOf("ret getattr(self, name, None)")
             if A("getattr(self, name, None)") else OneOf("ret getattr(builtins, name)",
                                                         "ret builtins.__dict__[name]"))):
        for fi in ctx.prog.funcs.get(D + q, []):
            ctx.table(R, fi, ctx.paths(fi, names), lambda p: result(p).replace("(*args)", "(**args)"), spec)
    for fi in ctx.prog.funcs.get(D + "_create_array", []):
        for p in ctx.paths(fi, ("f", "args", "state", "npdict")):
            if p.ctl == "raise" and p.implicit:
                continue
            ev = [(e.kind, show(e.t), show(e.x) if e.x is not None else "") for e in p.events]
            none = {show(k): v for k, v in p.facts.items()}.get("npdict is None")
            st = [i for i, e in enumerate(ev) if e[1] == "f(*args).__setstate__(state)"]
            up = [i for i, e in enumerate(ev) if "__dict__" in e[1] and "npdict" in e[2] + e[1]]
            ctx.ob(R, fi.qual, result(p) == "ret f(*args)" and len(st) == 1 and (
                (not up) if none else len(up) == 1 and up[0] > st[0]),
                "an array is rebuilt by %s" % [e[1] for e in ev], fi)
    for fi in ctx.prog.funcs.get(D + "_setitems", []):
        for p in ctx.paths(fi, ("dest", "source")):
            ev = [(e.kind, show(e.t), show(e.x) if e.x is not None else "") for e in p.events]
            ok = [e for e in ev if e[0] == "setitem" and e[1] == "dest"] or \
                [e for e in ev if e[0] == "mut" and e[1] == "dest" and "'update', source" in e[2]]
            ctx.ob(R, fi.qual, len(ev) == 1 and len(ok) == 1 and (
                ok[0][2] == "(elem(source), source[elem(source)])" or "update" in ok[0][2]),
                "the items are set by %s" % ev, fi)
    for fi in ctx.prog.funcs.get(D + "_create_dtypemeta", []):
        ctx.table(R, fi, ctx.paths(fi, ("scalar_type",)), result, lambda A: (
            "ret dill._dill.NumpyDType" if A("scalar_type is None") else
            "ret type(dill._dill.NumpyDType(scalar_type))"))


@rule("C14")
def find_class(ctx):
    for fi in ctx.funcs(D + "Unpickler.find_class"):
        def pair(A, a, b):
            for k in ("('%s', '%s') == (module, name)" % (a, b), "(module, name) == ('%s', '%s')" % (a, b)):
                if A.get(k) is not None:
                    return A.get(k)
            x, y = "module == '%s'" % a, "name == '%s'" % b
            if A.get(x) is False or A.get(y) is False:
                return False
            return A(x) and A(y)

        def spec(A):
            if pair(A, "__builtin__", "__main__"):
                return OneOf("ret self._main.__dict__", "ret vars(self._main)")
            if pair(A, "__builtin__", "NoneType"):
                return OneOf("ret type(None)", "ret types.NoneType")
            f = ("ret pickle.Unpickler.find_class(self, %s, name)", "ret pickle._Unpickler.find_class(self, %s, name)",
                 "ret super(dill._dill.Unpickler, self).find_class(%s, name)")
            if A("module == 'dill.dill'"):
                return OneOf(*[x % "'dill._dill'" for x in f])
            return OneOf(*[x % "module" for x in f])
        ctx.table("C14.find_class", fi, ctx.paths(fi, ("self", "module", "name"), self_type=D + "Unpickler"),
                  result, spec)
    # the class of every unpickler in use
    n = 0
    for c in ctx.prog.classes.get(D + "Unpickler", []):
        n += 1
        ctx.ob("C14.find_class", c.qual, "find_class" in c.members, "the class has no find_class")
    if not n:
        raise AnalysisError("Unpickler class not found")


# ------------------------------------------------------------------------- C15
TABLES = ("_reverse_typemap", "_incedental_reverse_typemap", "_typemap", "_incedental_types")


def table_ops(tree):
    """ordered updates of the registries in the module body:
    (table, kind, key source, value source, node)"""
    out = []

    def stmts(body):
        for st in body:
            yield st
            for f in ("body", "orelse", "finalbody"):
                if isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                    yield from stmts(getattr(st, f, []) or [])
            if isinstance(st, ast.Try):
                for h in st.handlers:
                    yield from stmts(h.body)
    for st in stmts(tree.body):
        if isinstance(st, (ast.Assign, ast.AnnAssign)):
            tg = st.targets if isinstance(st, ast.Assign) else [st.target]
            for t in tg:
                if isinstance(t, ast.Name) and t.id in TABLES and st.value is not None:
                    if isinstance(st.value, ast.Dict):
                        out.append((t.id, "new", None, None, st))
                        for k, v in zip(st.value.keys, st.value.values):
                            if k is None:
                                out.append((t.id, "update", None, ast.unparse(v), st))
                            else:
                                out.append((t.id, "set", ast.unparse(k), ast.unparse(v), st))
                    else:
                        out.append((t.id, "new", None, ast.unparse(st.value), st))
                elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in TABLES:
                    out.append((t.value.id, "set", ast.unparse(t.slice), ast.unparse(st.value), st))
        elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id in TABLES:
            out.append((st.target.id, "update", None, ast.unparse(st.value), st))
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and x.id in TABLES:
                        out.append((x.id, "remove", ast.unparse(t), None, st))
        elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and \
                isinstance(st.value.func, ast.Attribute) and isinstance(st.value.func.value, ast.Name) and \
                st.value.func.value.id in TABLES:
            c = st.value
            n, meth = c.func.value.id, c.func.attr
            if meth in ("update", "__ior__") and len(c.args) == 1 and isinstance(c.args[0], ast.Dict):
                for k, v in zip(c.args[0].keys, c.args[0].values):
                    if k is None:
                        out.append((n, "update", None, ast.unparse(v), st))
                    else:
                        out.append((n, "set", ast.unparse(k), ast.unparse(v), st))
            elif meth == "update" and c.args:
                out.append((n, "update", None, ast.unparse(c.args[0]), st))
            elif meth == "update":
                for k in c.keywords:
                    out.append((n, "set", repr(k.arg), ast.unparse(k.value), st))
            elif meth == "setdefault" or meth == "__setitem__":
                out.append((n, "set", ast.unparse(c.args[0]), ast.unparse(c.args[1]), st))
            elif meth == "add":
                out.append((n, "add", ast.unparse(c.args[0]), None, st))
            else:
                out.append((n, "remove", meth, None, st))
        elif isinstance(st, ast.For):
            # for k, v in R.items(): T[v] = k  is an inversion of R
            if len(st.body) == 1 and isinstance(st.body[0], ast.Assign):
                pass
    return out


def is_inversion(src, of="_reverse_typemap"):
    """does the expression build {value: key} from the items of the table?"""
    try:
        e = ast.parse(src, mode="eval").body
    except SyntaxError:
        return False
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "dict" and len(e.args) == 1:
        a = e.args[0]
        if isinstance(a, (ast.GeneratorExp, ast.ListComp)) and len(a.generators) == 1:
            return _inv(a.generators[0], a.elt.elts if isinstance(a.elt, ast.Tuple) else [], of)
        if ast.unparse(a).replace(" ", "") in (
                "zip(%s.values(),%s.keys())" % (of, of), "zip(%s.values(),%s)" % (of, of),
                "map(reversed,%s.items())" % of):
            return True
    if isinstance(e, ast.DictComp) and len(e.generators) == 1:
        return _inv(e.generators[0], [e.key, e.value], of)
    return False


def _inv(gen, pair, of):
    if gen.ifs or len(pair) != 2 or ast.unparse(gen.iter) != of + ".items()":
        return False
    t = gen.target
    if not (isinstance(t, ast.Tuple) and len(t.elts) == 2):
        return False
    return ast.unparse(pair[0]) == ast.unparse(t.elts[1]) and ast.unparse(pair[1]) == ast.unparse(t.elts[0])


@rule("C15")
def tables(ctx):
    tree = ctx.prog.modules["dill._dill"].tree
    ops = table_ops(tree)
    by = {t: [o for o in ops if o[0] == t] for t in TABLES}
    inv = None
    for i, o in enumerate(ops):
        ctx.ob("C15.grow", "%s %s %s" % (o[0], o[1], o[2] or ""), o[1] != "remove",
               "an entry of a registry is removed", None, o[4].lineno)
        if o[0] == "_typemap" and o[1] == "new":
            if inv is not None:
                ctx.ob("C15.inverse", "_typemap", False, "the save table is built twice", None, o[4].lineno)
            inv = i
            ctx.ob("C15.inverse", "_typemap", o[3] is not None and is_inversion(o[3]),
                   "the save table is not the inverse of the load table: %s" % o[3], None, o[4].lineno)
    if inv is None:
        # built by a loop over the load table
        ok = False
        for st in ast.walk(tree):
            if isinstance(st, ast.For) and ast.unparse(st.iter) == "_reverse_typemap.items()" and \
                    isinstance(st.target, ast.Tuple) and len(st.body) == 1:
                k, v = [ast.unparse(x) for x in st.target.elts]
                ok = ok or ast.unparse(st.body[0]) == "_typemap[%s] = %s" % (v, k)
        if not ok:
            raise AnalysisError("the table of type names used for saving was not found")
        inv = max([i for i, o in enumerate(ops) if o[0] == "_reverse_typemap" and o[1] != "set"] or [0])
    # entries made after the inversion must be made in both
    late_r = {(o[2], o[3]): o for o in ops[inv:] if o[0] == "_reverse_typemap" and o[1] in ("set", "update", "new")}
    late_t = {(o[3], o[2]): o for o in ops[inv:] if o[0] == "_typemap" and o[1] in ("set", "update")}
    for k, o in late_r.items():
        ctx.ob("C15.both", "_reverse_typemap[%s]" % k[0], o[1] == "set" and k in late_t,
               "a type added to the load table only cannot be saved by its name", None, o[4].lineno)
    for k, o in late_t.items():
        ctx.ob("C15.both", "_typemap[%s]" % k[1], o[1] == "set" and k in late_r,
               "a type added to the save table only cannot be loaded again", None, o[4].lineno)
    # incidental types reach the load table
    merged = [i for i, o in enumerate(ops) if o[0] == "_reverse_typemap" and o[1] == "update" and
              o[3] == "_incedental_reverse_typemap"]
    for i, o in enumerate(ops):
        if o[0] == "_incedental_reverse_typemap" and o[1] == "set":
            ok = any(j > i for j in merged) or any(
                p[0] == "_reverse_typemap" and p[1] == "set" and p[2] == o[2] and p[3] == o[3] for p in ops)
            ctx.ob("C15.incidental", "_incedental_reverse_typemap[%s]" % o[2], ok,
                   "an implementation-specific type never reaches the load table", None, o[4].lineno)
    # names mean what they say
    seen = {}
    for o in ops:
        if o[1] != "set" or o[0] not in ("_reverse_typemap", "_incedental_reverse_typemap"):
            continue
        key = o[2].strip("'\"")
        v = ast.parse(o[3], mode="eval").body
        if isinstance(v, (ast.Name, ast.Attribute)):
            nm = v.id if isinstance(v, ast.Name) else v.attr
            same = nm == key or ctx.prog.resolve("dill._dill", nm) is ctx.prog.resolve("dill._dill", key)
            ctx.ob("C15.name", "%s[%s]" % (o[0], o[2]), same,
                   "the name %s is bound to %s" % (key, o[3]), None, o[4].lineno)
        else:
            hint = {"DictKeysType": ".keys()", "DictValuesType": ".values()", "DictItemsType": ".items()",
                    "OdictKeysType": ".keys()", "OdictValuesType": ".values()", "OdictItemsType": ".items()"}
            if key in hint:
                other = {".keys()", ".values()", ".items()"} - {hint[key]}
                ctx.ob("C15.name", "%s[%s]" % (o[0], o[2]), hint[key] in o[3] and not any(
                    x in o[3] for x in other) and not ("Odict" in key and "{}" in o[3]),
                    "the name %s is bound to %s" % (key, o[3]), None, o[4].lineno)
        if key in seen and seen[key] != o[3]:
            ctx.ob("C15.name", "%s (twice)" % key, False, "the name %s stands for both %s and %s" % (
                key, seen[key], o[3]), None, o[4].lineno)
        seen.setdefault(key, o[3])
        ctx.ob("C15.name", key + " (unique)", True)
    for k in sorted(TYPES):
        ctx.ob("C15.known", k, k in seen, "existing pickles name the type %s and it has no entry" % k)
    ctx.floor("C15.name", 20)


@rule("C15")
def builtin_types(ctx):
    for fi in ctx.funcs(D + "_create_typemap"):
        n = 0
        for p in ctx.paths(fi, ()):
            for e in p.events:
                if e.kind != "yield":
                    continue
                n += 1
                f = {show(k): v for k, v in p.facts.items()}
                t = e.t
                ok = t.op == "tuple" and len(t.a) == 2
                k, v = (show(t.a[0]), show(t.a[1])) if ok else ("", "")
                item = ok and (v.endswith("[%s]" % k) or (k.endswith("[0]") and v == k[:-3] + "[1]"))
                ctx.ob("C15.builtin", fi.qual, ok and item and "builtins.__dict__" in k and
                       "types.__dict__" in k, "yields %s instead of each name with its own value" % show(t)[:90],
                       fi, e.line)
                isn = any(b and ("type is type(" in a or a.endswith(") is type")) for a, b in f.items())
                mod = any(b and "'__module__'" in a and "'builtins'" in a for a, b in f.items())
                ctx.ob("C15.builtin", fi.qual + " (filter)", isn and mod,
                       "registers more than the built-in types", fi, e.line)
        if not n:
            raise AnalysisError("_create_typemap yields nothing")


@rule("C15")
def use(ctx):
    for fi in ctx.funcs(D + "_load_type"):
        ctx.table("C15.load", fi, ctx.paths(fi, ("name",)), result, lambda A: (
            "ret dill._dill._reverse_typemap[name]"))
    from .c05 import class_paths, facts_of
    for fi in ctx.funcs(D + "save_type"):
        reg = [p for p in class_paths(ctx, fi) if facts_of(p).get("obj in dill._dill._typemap")]
        ctx.ob("C15.save", fi.qual, bool(reg), "registered types are not stored by name", fi)
        for p in reg:
            ctx.ob("C15.save", fi.qual, pops(p) == [
                "reduce dill._dill._load_type (dill._dill._typemap[obj],) obj=obj"],
                "a registered type is stored as %s" % pops(p), fi)
    # nobody else changes the tables
    for fi, p in sweep(ctx, keep=lambda k, t, x=None: k in ("setitem", "delitem", "mut", "aug", "setattr", "storeglobal")):
        for e in p.events:
            t = show(e.t)
            if any(t == D + n or t == "dill.session." + n for n in TABLES) or (
                    e.kind == "storeglobal" and any(n in t for n in TABLES)):
                ctx.ob("C15.owner", "%s %s" % (fi.qual, e.kind), False,
                       "a registry is changed after import", fi, e.line)
            ctx.nsites += 1
    ctx.ob("C15.owner", "package sweep", True)
