"""C05: classes pickled by value."""
from .. import terms as tm
from ..lib import (OneOf, SKIP, dict_items, norm, reduction, result, show, unident)
from ..program import AnalysisError
from . import rule

D = "dill._dill."
INL = frozenset([D + "_get_typedict_type", D + "_get_typedict_abc"])
QN = ("getattr(obj, '__qualname__', None)", "obj.__qualname__")
PRIVATE = "lstrip('_')"


def deciding(a):
    """the facts that decide how a class is stored (states that differ in them are kept apart)"""
    s = show(a)
    return "_byref" in s or "'_postproc'" in s or "_locate_function" in s or is_str_test(s)


def is_str_test(s):
    """the test whether the slots are given as a single string"""
    return "__slots__" in s and (s.startswith("str is type(") or s.endswith(") is str") or
                                 s.startswith("isinstance(") and s.endswith(", str)"))


def class_paths(ctx, fi):
    return ctx.paths(fi, ("pickler", "obj", "postproc_list"), inline=INL, track=deciding)


def appended(p):
    """deferred calls queued on the list parameter"""
    out = []
    for e in p.events:
        if e.kind == "call" and e.t.a[0].op == "attr" and show(e.t.a[0].a[0]) == "postproc_list":
            m, a = e.t.a[0].a[1], tm.cargs(e.t)
            if m == "append":
                out.append(a[0])
            elif m == "extend":
                x = unident(a[0])
                out.extend(x.a if x.op == "list" else [x])
    return out


def queue(p, r):
    pp = unident(r["pp"])
    if pp is tm.NONE:
        return []
    if pp.op == "list":
        return list(pp.a)
    if show(pp) == "postproc_list":
        return appended(p)
    return [pp]


def facts_of(p):
    return {show(k): v for k, v in p.facts.items()}


def fact(f, *names):
    for n in names:
        if n in f:
            return f[n]
    return None


def check_namespace(p, ns, f):
    """problems of the stored namespace (a term) given the facts of the path"""
    ns = unident(ns)
    if ns.op != "dict" or not ns.a or show(ns.a[0]) != "**obj.__dict__":
        if ns.op == "attr" and show(ns) == "obj.__dict__":
            return ["the class dictionary itself is stored"]
        return ["the stored namespace is %s" % show(ns)[:200]]
    bad = []
    gone = set()
    inherited = False
    slots = None
    for i, x in enumerate(ns.a[1:]):
        before = show(tm.mk("dict", *ns.a[:i + 1]))
        loop, y = None, x
        while y.op == "each":
            loop, y = y.a[0], y.a[1]
        if y.op != "del":
            bad.append("entry %s is added to the stored namespace" % show(x)[:160])
            continue
        key = y.a[0]
        if tm.is_const(key):
            gone.add(tm.cval(key))
        elif "__slots__" in show(key):
            slots = key
            why = check_slot(key, loop, f)
            if why:
                bad.append(why)
        elif loop is not None and "__bases__" not in show(key):
            inherited = True
        else:
            bad.append("entry %s is dropped" % show(key)[:160])
    std = fact(f, "issubclass(type(obj), type)")
    if std is False:
        if gone & {"__dict__", "__weakref__"}:
            bad.append("slots are dropped for an old-style class")
    else:
        for n in ("__dict__", "__weakref__"):
            if n not in gone:
                bad.append("the %s slot is kept in the stored namespace" % n)
    if slots is None:
        bad.append("the slot descriptors are kept in the stored namespace")
    rest = gone - {"__dict__", "__weakref__"}
    isabc = f.get("isinstance(obj, abc.ABCMeta)")
    old = next((v for k, v in f.items() if k.startswith("'_abc_registry' in ")), None)
    pyabc = {"_abc_registry", "_abc_cache", "_abc_negative_cache"}
    if isabc:
        want = pyabc if old else {"_abc_impl"}
        if want - rest:
            bad.append("abstract-class caches %s are kept" % sorted(want - rest))
        if rest - pyabc - {"_abc_impl", "_abc_negative_cache_version"}:
            bad.append("entries %s are dropped" % sorted(rest))
    elif rest:
        bad.append("entries %s are dropped" % sorted(rest))
    same = [v for k, v in f.items() if k.endswith("is {**obj.__dict__}[elem({**obj.__dict__})]")
            or k.startswith("{**obj.__dict__}[elem({**obj.__dict__})] is ")]
    named = [v for k, v in f.items() if k.startswith("hasattr({**obj.__dict__}[elem(") and
             "__qualname__" in k]
    for k in f:
        # what the bases provide: the first of them in the resolution order wins
        if " is " not in k or "{**obj.__dict__}[elem({**obj.__dict__})]" not in k or "__bases__" not in k:
            continue
        b = k.replace("{**obj.__dict__}[elem({**obj.__dict__})]", "").replace(" is ", "")
        one = f.get("len(obj.__bases__) == 1")
        if "{each(loop(obj.__bases__), **" in b:
            bad.append("a later base overrides an earlier one in what is inherited")
        elif b.startswith("obj.__bases__[0].__dict__") and one is not True and "len(obj.__bases__)" not in str(f):
            bad.append("only the first base is looked at")
        elif ".__dict__" not in b and "vars(" not in b and "getattr_static" not in b:
            bad.append("what is inherited is not taken from the dictionaries of the bases")
    if inherited:
        if not (any(same) and any(named)):
            bad.append("an attribute is dropped that is not known to be the very object a base provides")
    elif any(same) and any(named):
        bad.append("an attribute that a base provides is kept")
    return bad


def check_slot(key, loop, f):
    s = show(key)
    mangled = PRIVATE in s
    pre = next((v for k, v in f.items() if k.endswith(".startswith('__')") and "__slots__" in k), None)
    post = next((v for k, v in f.items() if k.endswith(".endswith('__')") and "__slots__" in k), None)
    cls = next((v for k, v in f.items() if k == "obj.__name__.lstrip('_')"), None)
    private = pre is True and post is not True
    if mangled:
        if not (pre is True and post is False):
            return "the name of a slot that is not private is mangled"
        if cls is not True and cls is not None:
            return "a slot name is mangled with an empty class name"
        return None
    if private and post is False and cls is not False:
        return "the name of a private slot is not mangled"
    if key.op in ("each",):
        return "the slot names dropped are %s" % s[:100]
    if loop is None:
        # one string
        st = next((v for k, v in f.items() if is_str_test(k)), None)
        if st is False:
            return "a slot sequence is treated as one name"
    else:
        st = next((v for k, v in f.items() if is_str_test(k)), None)
        if st is not False:
            return "a slot given as a string is taken apart into characters"
    return None


@rule("C05")
def by_value(ctx):
    nval = ninh = 0
    for fi in ctx.funcs(D + "save_type"):
        for p in class_paths(ctx, fi):
            if p.ctl == "raise" and p.implicit:
                continue
            f = facts_of(p)
            rs = [(e, r) for e in p.events for r in [reduction(e)] if r and r["kind"] == "reduce+"]
            for e, r in rs:
                fn = show(r["func"])
                line = e.line
                bad = []
                q = [show(x) for x in queue(p, r)]
                orig = r
                if show(r["obj"]) != "obj":
                    bad.append("the class is not registered as %s" % show(r["obj"]))
                if fn == D + "_create_namedtuple":
                    a = [show(x) for x in r["args"].a]
                    base = ["obj.__name__", "obj._fields", "obj.__module__"]
                    dfl = f.get("obj._field_defaults")
                    tup = [v for k, v in f.items() if "obj.__bases__" in k and "tuple" in k and " in " not in k]
                    if True not in tup:
                        bad.append("a class that is more than a plain named tuple is stored as one")
                    if a[:3] != base:
                        bad.append("namedtuple parts are %s" % a)
                    if dfl is False:
                        if len(a) > 3 and a[3] not in ("[]", "None", "()"):
                            bad.append("defaults are %s" % a[3])
                    else:
                        has = f.get("elem(obj._fields) in obj._field_defaults")
                        okd = ("[each(loop(obj._fields), obj._field_defaults[elem(obj._fields)])]",)
                        if len(a) < 4 or (a[3] not in okd and not (has is False and a[3] == "[]")) \
                                or (a[3] in okd and has is False):
                            bad.append("defaults are %s" % (a[3:] or "dropped"))
                    qn = [x for x in q if "'__qualname__'" in x]
                    eq = next((v for k, v in f.items() if k.endswith("== obj.__name__") and
                               "__qualname__" in k), None)
                    if eq is False and not qn:
                        bad.append("a qualified name that differs from the name is lost")
                    bad += ["deferred %s" % x for x in q if not x.startswith("(setattr, (obj, '__qualname__', ")]
                    ctx.ob("C05.namedtuple", fi.qual, not bad, "; ".join(bad), fi, line)
                    continue
                nval += 1
                ob = f.get("hasattr(obj, '__orig_bases__')")
                if fn == D + "_create_type":
                    a = list(r["args"].a)
                    a = flat_args(a)
                    t = [show(x) for x in a]
                    if t[:3] != ["type(obj)", "obj.__name__", "obj.__bases__"] or len(a) != 4:
                        bad.append("parts are %s" % t[:3])
                    elif ob is not False:
                        bad.append("the original generic bases are dropped")
                    else:
                        bad += check_namespace(p, a[3], f)
                elif fn == "types.new_class":
                    a = list(r["args"].a)
                    t = [show(x) for x in a[:2]]
                    if t != ["obj.__name__", "obj.__orig_bases__"] or ob is not True:
                        bad.append("parts are %s" % t)
                    if len(a) < 3 or show(a[2]) != "{'metaclass': type(obj)}":
                        bad.append("the metaclass is %s" % (show(a[2]) if len(a) > 2 else "dropped"))
                    if len(a) < 4 or a[3] is tm.NONE:
                        empty = [v for k, v in f.items() if k.startswith("{**obj.__dict__") or
                                 k.startswith("o('dict'")]
                        if True not in [not v for v in empty]:
                            bad.append("the namespace is dropped")
                    else:
                        kw = tm.ckw(a[3]) if a[3].op == "call" else {}
                        if a[3].op != "call" or [show(x) for x in tm.cargs(a[3])] != [D + "_setitems"] \
                                or set(kw) != {"source"}:
                            bad.append("the namespace is filled by %s" % show(a[3])[:80])
                        else:
                            bad += check_namespace(p, kw["source"], f)
                else:
                    bad.append("rebuilt by %s" % fn)
                # deferred calls
                qn = [x for x in q if "'__qualname__'" in x]
                none = fact(f, *[n + " is None" for n in QN])
                ok = ["(setattr, (obj, '__qualname__', %s))" % n for n in QN]
                if none is not True and not (qn and qn[-1] in ok):
                    bad.append("the qualified name is not restored (%s)" % qn)
                reg = [x for x in q if "obj.register" in x]
                if f.get("isinstance(obj, abc.ABCMeta)"):
                    c = "abc._get_dump(obj)[0]"
                    w = {True: "each(loop(%s), (obj.register, (elem(%s)(),)))" % (c, c),
                         False: "each(loop(obj._abc_registry), (obj.register, (elem(obj._abc_registry),)))"}
                    if p.ctl == "ret":
                        h = f.get("hasattr(abc, '_get_dump')")
                        okr = (w[h],) if h is not None else tuple(w.values())
                        if len(reg) != 1 or reg[0] not in okr:
                            bad.append("virtual subclasses are not registered again (%s)" % reg)
                elif reg:
                    bad.append("deferred %s" % reg)
                bad += ["deferred %s" % x[:120] for x in q if x not in qn and x not in reg]
                ctx.ob("C05.by-value", fi.qual, not bad, "; ".join(dict.fromkeys(bad)), fi, line)
        ctx.floor("C05.by-value", 4)
    if not nval:
        raise AnalysisError("no path of save_type stores a class by value")


def flat_args(a):
    from ..lib import flat
    return flat(a)


@rule("C05")
def rebuild(ctx):
    for fi in ctx.funcs(D + "_create_type"):
        ps = ctx.paths(fi, ("typeobj",))
        ctx.table("C05.rebuild", fi, ps, result, lambda A: "ret typeobj(**args)")
    for fi in ctx.funcs(D + "_create_namedtuple"):
        ps = ctx.paths(fi, ("name", "fieldnames", "modulename", "defaults"))
        found = D + "_import_module(fmt(fv('', modulename) '.' fv('', name)), True)"

        def spec(A):
            if A(found + " is None"):
                return "ret collections.namedtuple(name, fieldnames, defaults=defaults, module=modulename)"
            return "ret " + found
        ctx.table("C05.rebuild", fi, ps, result, spec)
