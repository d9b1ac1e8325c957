"""S06: saving imported objects by reference; S08: identifying a session."""
import ast
import re

from .. import terms as tm
from ..lib import caught_names, closure_nodes, facts, result, show, written, mutation
from ..program import AnalysisError
from . import rule

S = "dill.session."
D = "dill._dill."
MD = "main_module.__dict__"
E = "elem(%s)" % MD
V = "%s[%s]" % (MD, E)
NEW = "types.ModuleType(main_module.__name__)"
# a truth test of the records themselves
LISTED = re.compile(r"^\[each\(loop\(main_module\.__dict__")
LISTS = ("__dill_imported", "__dill_imported_as", "__dill_imported_top_level")


def records(t):
    """record tuples of a list display filled in one loop"""
    if t.op not in ("list", "tuple"):
        return None
    out = []
    for x in t.a:
        while x.op == "each":
            x = x.a[1]
        if x.op != "tuple":
            return None
        out.append(x.a)
    return out


def short(s):
    return s.replace(V, "value").replace(E, "name").replace(NEW, "new").replace(MD, "namespace").replace(
        S + "_module_map()", "map").replace(S, "").replace(D, "")


def stash_keep(kind, t, x=None):
    return kind in ("setattr", "mut", "setitem", "call")


def layouts(ctx):
    """roles of the positions of the records, as written by _stash_modules"""
    out = {}
    look = None
    for fi in ctx.funcs(S + "_stash_modules"):
        for p in ctx.run(fi, track=lambda a: True, keep=stash_keep):
            for e in p.events:
                if e.kind == "setattr" and tm.is_const(e.x.a[0]) and tm.cval(e.x.a[0]) in LISTS:
                    for r in records(e.x.a[1]) or []:
                        roles = tuple(role(show(y)) for y in r)
                        out.setdefault(tm.cval(e.x.a[0]), set()).add(roles)
    return out


def role(s):
    if s == E:
        return "here"
    if s.endswith("[0]") and "_lookup_module(" in s:
        return "module"
    if s.endswith("[1]") and "_lookup_module(" in s:
        return "there"
    if ".top_level[" in s or ".top_level.get(" in s or s.startswith("get(") and ".top_level" in s:
        return "module"
    return "?" + short(s)


@rule("S06")
def stash(ctx):
    R = "S06.stash"
    for fi in ctx.funcs(S + "_stash_modules"):
        kinds = set()
        for p in ctx.run(fi, track=lambda a: True, keep=stash_keep):
            if p.ctl == "raise":
                if not p.implicit:
                    ctx.ob(R, fi.qual, False, "saving fails: %s" % result(p), fi)
                continue
            f = facts(p)
            cmp_ = [(k, v) for k, v in f.items() if "len(" in k and MD in k or k in (MD, "0 == len(%s)" % MD)
                    or LISTED.search(k)]
            for e in p.events:
                w = written(e)
                if w is None:
                    continue
                s = show(w)
                bad = s.startswith("main_module") or s.startswith(V)
                ctx.ob("S06.untouched", fi.qual, not bad, "the module being saved is modified (%s)" % short(s), fi, e.line)
            if result(p) == "ret main_module":
                ok = len(cmp_) == 1 and complete(cmp_[0])
                ctx.ob("S06.whole", fi.qual, ok, "the module itself is returned although entries were recorded as imports "
                       "(%s)" % [short(k) for k, _ in cmp_], fi)
                continue
            if result(p) != "ret " + NEW:
                ctx.ob("S06.whole", fi.qual, False, "returns %s" % short(result(p)), fi)
                continue
            line = p.events[-1].line if p.events else 0
            ctx.ob("S06.whole", fi.qual, len(cmp_) == 1 and not complete(cmp_[0]), "a filtered module is returned although "
                   "everything is kept by value", fi, line)
            got = {}
            for e in p.events:
                if e.kind == "setattr" and show(e.t) == NEW and tm.is_const(e.x.a[0]):
                    n = tm.cval(e.x.a[0])
                    if n in LISTS:
                        got[n] = records(e.x.a[1])
                    else:
                        ctx.ob("S06.loader", fi.qual, n == "__loader__" and show(e.x.a[1]) == "True" and
                               f.get(D + "_is_imported_module(main_module)") is True, "the filtered module gets %s = %s"
                               % (n, short(show(e.x.a[1]))), fi, e.line)
                m, a = mutation(e)
                if m == "update" and show(e.t if e.kind == "mut" else e.t.a[0].a[0]) == NEW + ".__dict__":
                    d = a[0]
                    ents = []
                    if d.op == "dict":
                        for x in d.a:
                            while x.op == "each":
                                x = x.a[1]
                            ents.append((show(x.a[0]), show(x.a[1])) if x.op == "kv" else ("?", show(x)))
                    else:
                        ents = [("?", show(d))]
                    got["original"] = ents
            for n in LISTS + ("original",):
                if got.get(n) is None:
                    ctx.ob(R, "%s %s" % (fi.qual, n), False, "the record %s is not stored in the filtered module" % n, fi, line)
                    got[n] = []
            il = f.get("%s is None" % ("getattr(%s, '__loader__', None)" % NEW))
            if il and f.get(D + "_is_imported_module(main_module)"):
                ok = any(e.kind == "setattr" and tm.is_const(e.x.a[0]) and tm.cval(e.x.a[0]) == "__loader__"
                         for e in p.events)
                ctx.ob("S06.loader", fi.qual, ok, "the filtered copy of an imported module does not look imported", fi, line)
            elif il and f.get(D + "_is_imported_module(main_module)") is None:
                ctx.ob("S06.loader", fi.qual, False, "the filtered copy of an imported module does not look imported", fi, line)
            what = place(got)
            if what == []:
                if any(V in k for k in f):
                    ctx.ob("S06.lost", fi.qual, False, "an entry is lost: neither kept nor recorded", fi, line)
                continue
            kinds.add(what[0][0] if what[0][0] != "original" else "original:" + what[0][1][1])
            want = expected(f)
            ctx.ob(R, fi.qual, len(what) == 1 and want(what[0]), "an entry with %s must be %s; found %s" % (
                short(", ".join(("" if v else "not ") + k for k, v in sorted(f.items()) if V in k)), want.__doc__,
                short(str(what))), fi, line)
        for k in ("original:" + V, "original:" + NEW, "original:%s.__dict__" % NEW, "__dill_imported", "__dill_imported_as",
                  "__dill_imported_top_level"):
            ctx.ob("S06.kinds", "%s %s" % (fi.qual, short(k)), k in kinds, "no entry is ever placed in %s" % short(k), fi)
    for n, ls in sorted(layouts(ctx).items()):
        ctx.ob("S06.layout", n, len(ls) == 1, "the records have several layouts: %s" % sorted(ls))


def complete(kv):
    """does the comparison establish that nothing was left out?"""
    k, v = kv
    if k == MD or LISTED.search(k):
        return not v
    i, j = k.find("len({"), k.find("len(%s)" % MD)
    if " == " in k:
        return v
    if i < j:
        return not v        # len(original) < len(namespace)
    return v                # not len(namespace) < ... cannot occur with this sign


def place(got):
    out = []
    for n in LISTS:
        for r in got[n]:
            out.append((n, tuple(show(x) for x in r)))
    for kv in got["original"]:
        out.append(("original", kv))
    return out


def expected(f):
    def has(*ks):
        for k in ks:
            if f.get(k) is not None:
                return f[k]
        return None

    def keep(val):
        def pred(w):
            return w == ("original", (E, val))
        pred.__doc__ = "kept as %s" % short(val)
        return pred
    if has("%s is main_module" % V, "main_module is %s" % V):
        return keep(NEW)
    if has("%s is %s" % (V, MD), "%s is %s" % (MD, V)):
        return keep(NEW + ".__dict__")
    if any(has("%s is %s" % (V, c)) for c in ("None", "True", "False")):
        return keep(V)
    if has("%s_is_builtin_module(%s)" % (D, V)) and has("isinstance(%s, types.ModuleType)" % V):
        return keep(V)
    lk = [k for k in f if k.startswith(S + "_lookup_module(")]
    call = lk[0][:lk[0].rindex(")[") + 1] if lk else None

    def bad(w):
        """decided by identity, constants, built-in modules and the lookup, in this order"""
        return False
    need = [has("%s is main_module" % V, "main_module is %s" % V) is False,
            has("%s is %s" % (V, MD), "%s is %s" % (MD, V)) is False,
            all(has("%s is %s" % (V, c)) is False for c in ("None", "True", "False")),
            has("isinstance(%s, types.ModuleType)" % V) is False or has("%s_is_builtin_module(%s)" % (D, V)) is False]
    if not all(need) or call is None:
        return bad
    want = "%s_lookup_module(%s_module_map(), %s, %s, main_module)" % (S, S, E, V)
    if call != want:
        return bad
    if has(call + "[0] is None"):
        it = has("id(%s) in %s_module_map().top_level" % (V, S))

        def pred(w):
            """recorded as a top-level module under its name, or kept"""
            top = w[0] == "__dill_imported_top_level" and sorted(role(x) for x in w[1]) == ["here", "module"]
            k = w == ("original", (E, V))
            return top if it else k if it is False else top or k
        return pred
    same = has("%s[1] == %s" % (call, E), "%s == %s[1]" % (E, call))
    if same:
        def pred(w):
            """recorded with its module and name"""
            return w[0] == "__dill_imported" and sorted(role(x) for x in w[1]) in (["here", "module"], ["module", "there"])
        return pred

    def pred(w):
        """recorded with its module, its name there and its name here"""
        return w[0] == "__dill_imported_as" and sorted(role(x) for x in w[1]) == ["here", "module", "there"]
    return pred


# ------------------------------------------------------------------ restore
@rule("S06")
def restore(ctx):
    R = "S06.restore"
    L = layouts(ctx)
    for fi in ctx.funcs(S + "_restore_modules"):
        best = None
        for p in ctx.run(fi, track=lambda a: True, raises="all", keep=stash_keep):
            popped = []
            for e in p.events:
                m, a = mutation(e)
                if e.kind == "delitem" and show(e.t) == MD and tm.is_const(e.x):
                    popped.append(tm.cval(e.x))
                elif m in ("pop",) and a and tm.is_const(a[0]):
                    popped.append(tm.cval(a[0]))
                elif e.kind == "setitem" and show(e.t) == MD:
                    ctx.ob(R, "%s %s" % (fi.qual, src_of(e.x.a[0]) or "?"), bound_back(e, L), "an entry is bound to %s = %s"
                           % (show(e.x.a[0]), show(e.x.a[1])), fi, e.line)
                elif e.kind == "setattr" and show(e.t) == "main_module":
                    ctx.ob(R, fi.qual, False, "an attribute %s is set" % show(e.x.a[0]), fi, e.line)
            bound = {src_of(e.x.a[0]) for e in p.events if e.kind == "setitem"}
            if p.ctl == "ret" and (best is None or (len(popped), len(bound)) > (len(best[0]), len(best[1]))):
                best = (popped, bound)
        if best is None:
            raise AnalysisError("_restore_modules: no normal path")
        ctx.ob("S06.records", fi.qual, sorted(best[0]) == sorted(LISTS), "the records %s are removed, %s were written"
               % (sorted(best[0]), sorted(LISTS)), fi)
        ctx.ob("S06.records", fi.qual + " (bound)", best[1] == set(LISTS), "only %s are bound back" % sorted(
            map(str, best[1])), fi)


def src_of(t):
    """record list a term was read from"""
    for x in tm.subterms(t):
        if tm.is_const(x) and isinstance(tm.cval(x), str) and tm.cval(x) in LISTS:
            return tm.cval(x)
    return None


def roles_in(t, L):
    """role of elem(list)[i]"""
    n = src_of(t)
    if n is None or t.op != "sub" or not tm.is_const(t.a[1]) or len(L.get(n, ())) != 1:
        return None
    r = next(iter(L[n]))
    i = tm.cval(t.a[1])
    return (n, r[i]) if isinstance(i, int) and -len(r) <= i < len(r) else None


def bound_back(e, L):
    k, v = roles_in(e.x.a[0], L), e.x.a[1]
    if k is None or v.op != "call":
        return False
    n = k[0]
    has_there = "there" in next(iter(L[n]))
    if k[1] != "here" and not (n == "__dill_imported" and k[1] == "there"):
        return False
    f, a = show(v.a[0]), [roles_in(x, L) for x in tm.cargs(v)]
    if n == "__dill_imported_top_level":
        return f in ("builtins.__import__", "__import__", "importlib.import_module", D + "_import_module") and \
            a[:1] == [(n, "module")]
    if not f.endswith(".find_class") or len(a) != 2 or a[0] != (n, "module"):
        return False
    if n == "__dill_imported":
        return a[1] in ((n, "here"), (n, "there"))
    return a[1] == (n, "there")


# ------------------------------------------------------------------ lookup
def map_layout(ctx):
    """roles of the entries of the maps built by _module_map"""
    out, keys = {}, {}
    for fi in ctx.funcs(S + "_module_map"):
        for p in ctx.run(fi, track=lambda a: True):
            f = facts(p)
            tops = False
            for e in p.events:
                if e.kind == "call" and e.t.a[0].op == "attr" and e.t.a[0].a[1] == "append":
                    b = e.t.a[0].a[0]
                    r = tm.cargs(e.t)[0]
                    if b.op == "sub" and b.a[0].op == "attr" and r.op == "tuple":
                        out.setdefault(b.a[0].a[1], set()).add(tuple(mrole(show(x)) for x in r.a))
                        keys.setdefault(b.a[0].a[1], set()).add(mrole(show(b.a[1])))
                elif e.kind == "setitem" and e.t.op == "attr":
                    out.setdefault(e.t.a[1], set()).add((mrole(show(e.x.a[1])),))
                    keys.setdefault(e.t.a[1], set()).add(mrole(show(e.x.a[0])))
                    if e.t.a[1] == "top_level":
                        dot = [v for k, v in f.items() if k.startswith("'.' in ")]
                        ctx.ob("S06.map", fi.qual + " top level", dot == [False], "a submodule is recorded as a top-level "
                               "module", fi, e.line)
                        tops = True
                else:
                    continue
                main = [v for k, v in f.items() if "'__main__'" in k or "'__mp_main__'" in k]
                ismod = [v for k, v in f.items() if k.startswith("isinstance(") and "ModuleType" in k]
                both = all(any(m in k for k in f) for m in ("'__main__'", "'__mp_main__'"))
                ctx.ob("S06.map", fi.qual, both and not any(main) and ismod == [True], "only imported modules other than "
                       "main may be recorded", fi, e.line)
            if ("isinstance(%s, types.ModuleType)" % M1, True) in [(mrole2(k), v) for k, v in f.items()] and not any(
                    v for k, v in f.items() if "'__main__'" in k or "'__mp_main__'" in k):
                dot = [v for k, v in f.items() if k.startswith("'.' in ")]
                ctx.ob("S06.map", fi.qual + " all top level", tops or dot == [True], "a top-level module is not recorded as "
                       "such: %s" % ", ".join(("" if v else "not ") + k for k, v in sorted(f.items())), fi)
        for b in breaks(closure_nodes(ctx, fi)):
            ctx.ob("S06.map", fi.qual + " complete", False, "the search of the modules is cut short", fi, b.lineno)
    return out, keys


def breaks(nodes):
    """statements that leave a for loop early"""
    out = []

    def walk(st, inloop):
        for x in ast.iter_child_nodes(st):
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(x, ast.Break) and inloop == "for" or isinstance(x, ast.Return) and inloop:
                out.append(x)
            walk(x, "for" if isinstance(x, ast.For) else "while" if isinstance(x, ast.While) else inloop)
    for f in nodes:
        if isinstance(f, ast.FunctionDef):
            walk(f, None)
    return out


M0, M1 = "elem(sys.modules.items())[0]", "elem(sys.modules.items())[1]"
ROLES = {M0: "module", M1: "moduleobj", "elem(%s.__dict__)" % M1: "name",
         "%s.__dict__[elem(%s.__dict__)]" % (M1, M1): "obj",
         "id(%s)" % M1: "id(moduleobj)", "id(%s.__dict__[elem(%s.__dict__)])" % (M1, M1): "id(obj)"}


def mrole(s):
    s = mrole2(s)
    return ROLES.get(s, "?" + s)


def mrole2(s):
    s = re.sub(r"(list|tuple|sorted)\(sys\.modules\.items\(\)\)", "sys.modules.items()", s)
    for a, b in (("elem(sys.modules)", M0), ("sys.modules[%s]" % M0, M1), ("vars(%s)" % M1, M1 + ".__dict__")):
        s = s.replace(a, b)
    return s


@rule("S06")
def lookup(ctx):
    maps, keys = map_layout(ctx)
    want = {"by_name": "name", "by_id": "id(obj)", "top_level": "id(moduleobj)"}
    for n, k in sorted(want.items()):
        ctx.ob("S06.map-key", n, keys.get(n) == {k}, "the map %s is keyed by %s instead of %s" % (n, sorted(
            keys.get(n, ())), k))
        ls = maps.get(n, set())
        ok = len(ls) == 1 and not any(x.startswith("?") for x in next(iter(ls)))
        ctx.ob("S06.map-layout", n, ok, "the entries of %s are unclear: %s" % (n, sorted(ls)))
        if not ok:
            return
    ctx.ob("S06.map-layout", "top_level value", maps["top_level"] == {("module",)}, "top_level must map to the module name")
    for fi in ctx.funcs(S + "_lookup_module"):
        seen, alone = set(), set()
        for p in ctx.run(fi, names=("modmap", "name", "obj", "main_module"), track=lambda a: True):
            if p.ctl == "raise":
                continue
            f = {rt(k, maps): v for k, v in facts(p).items()}
            r = rt(show(p.val), maps)
            nm = f.get("N.obj is obj", f.get("obj is N.obj"))
            nmain = f.get("sys.modules[N.module] is main_module", f.get("main_module is sys.modules[N.module]"))
            imain = f.get("sys.modules[I.module] is main_module", f.get("main_module is sys.modules[I.module]"))
            typ = f.get("isinstance(obj, dill.session.IMPORTED_AS_TYPES)")
            mod = [v for k, v in f.items() if "IMPORTED_AS_MODULES" in k]
            cand = typ or (mod and mod[0])
            if r in ("(N.module, name)", "(N.module, N.name)"):
                ok = nm is True and nmain is False
                why = "the object was not found under its name in a module other than main"
                seen.add("name")
            elif r == "(I.module, I.name)":
                ok = imain is False and bool(cand) and not (nm and nmain is False)
                why = "an object is looked up by identity although it is of no importable kind, is known by name, or was " \
                    "found in main"
                seen.add("id")
                if typ and not (mod and mod[0]):
                    alone.add("type")
                if mod and mod[0] and not typ:
                    alone.add("module")
            elif r == "(None, None)":
                ok = not (nm and nmain is False) and not (cand and imain is False)
                why = "an importable object is reported as not found"
                seen.add("none")
            else:
                ok, why = False, "a module and the name of the object in it must be returned, not %s" % r
            ctx.ob("S06.lookup", fi.qual, ok, why + ": " + ", ".join(("" if v else "not ") + k for k, v in sorted(f.items())),
                   fi)
        ctx.ob("S06.lookup", fi.qual + " (all ways)", seen == {"name", "id", "none"}, "only %s occur" % sorted(seen), fi)
        ctx.ob("S06.lookup", fi.qual + " (kinds)", alone == {"type", "module"}, "objects of importable types, and objects of "
               "the modules listed, must be looked up by identity: only the %s is enough" % sorted(alone), fi)


def rt(s, maps):
    for n, x, k in (("by_name", "N", "name"), ("by_id", "I", "id(obj)")):
        for i, r in enumerate(next(iter(maps[n]))):
            s = s.replace("elem(modmap.%s[%s])[%d]" % (n, k, i), "%s.%s" % (x, r))
            s = s.replace("elem(get(modmap.%s, %s, ()))[%d]" % (n, k, i), "%s.%s" % (x, r))
    return s


# ------------------------------------------------------------------ S08
@rule("S08")
def identify(ctx):
    G = "pickletools.genops(file.peek("
    for fi in ctx.funcs(S + "_identify_module"):
        n = {"name": 0, "none": 0, "stop": 0, "unable": 0}
        codes = {1: set(), 2: set()}
        for p in ctx.run(fi, names=("file", "main"), track=lambda a: True, unroll=2, excev=True):
            f = facts(p)
            for e in p.events:
                if e.kind == "call" and e.t.a[0].op == "attr" and show(e.t.a[0].a[0]) == "file":
                    ctx.ob("S08.consume", fi.qual, e.t.a[0].a[1] == "peek", "the stream is used by %s" % show(e.t), fi, e.line)
            r = result(p)
            exc = [e for e in p.events if e.kind == "except"]
            caught = " ".join(show(e.t) for e in exc)
            # openers of the two iterations
            def op1(k, it):
                for kk, v in f.items():
                    b, _, rest = kk.rpartition(k)
                    if b and not rest and b.startswith("elem(") and ("next1" in b) == (it == 2):
                        return v
                return None

            def opname(names, it):
                vs = [op1("[0].name == '%s'" % x, it) for x in names]
                ins = [v for kk, v in f.items() if "[0].name in " in kk and ("next1" in kk) == (it == 2)
                       and all("'%s'" % x in kk for x in names)]
                return any(vs) or any(ins)
            imp1 = opname(("GLOBAL", "SHORT_BINUNICODE"), 1) and op1("[1].endswith('_import_module')", 1)
            uni2 = opname(("UNICODE", "BINUNICODE", "SHORT_BINUNICODE"), 2)
            if p.ctl == "ret" and r != "ret None":
                n["name"] += 1
                for kk, v in f.items():
                    if v and "[0].name " in kk:
                        codes[2 if "next1" in kk else 1] |= set(re.findall(r"'(\w+)'", kk.rpartition("[0].name ")[2]))
                ok = r.startswith("ret elem(") and r.endswith("[1]") and "next1" in r and imp1 and uni2
                ctx.ob("S08.identify", fi.qual, bool(ok), "the name must be the first string after the import of the module: %s "
                       "if %s" % (r, sorted(f.items())), fi)
            elif p.ctl == "ret":
                n["none"] += 1
                ni = [v for k, v in f.items() if "NotImplementedError" in k]
                nonly = caught and all(show(e.t) == "NotImplementedError" for e in exc)
                mn = f.get("main is None") is False or f.get("main") is True
                ctx.ob("S08.unpeekable", fi.qual, bool(exc) and mn and (ni == [True] or nonly), "a file is accepted without "
                       "identifying it although the module was not named or the stream can be read ahead", fi)
            elif r == "raise UnpicklingError":
                n["unable" if exc else "stop"] += 1
                ni = [v for k, v in f.items() if "NotImplementedError" in k]
                if exc:
                    bad = (ni == [True] or caught == "NotImplementedError") and f.get("main is None") is False
                    ctx.ob("S08.unpeekable", fi.qual, not bad, "a stream that cannot be read ahead is refused although the "
                           "module was named", fi)
                else:
                    ctx.ob("S08.identify", fi.qual, not (imp1 and uni2), "a session is refused", fi)
            elif not p.implicit:
                ctx.ob("S08.refuse", fi.qual, False, "a file that is no session must raise UnpicklingError: %s" % r, fi)
            h = [show(e.t) for e in exc]
        for it, w in ((1, {"GLOBAL", "SHORT_BINUNICODE"}), (2, {"UNICODE", "BINUNICODE", "SHORT_BINUNICODE"})):
            ctx.ob("S08.opcodes", "%s %s" % (fi.qual, ("import", "name")[it - 1]), w <= codes[it], "the %s is recognised in "
                   "%s only, some protocol writes it with %s" % (("import", "name")[it - 1], sorted(codes[it]),
                                                                sorted(w - codes[it])), fi)
        for k, v in sorted(n.items()):
            ctx.ob("S08.outcomes", "%s %s" % (fi.qual, k), v > 0, "the outcome %r never occurs" % k, fi)
        hs = caught_names(ctx, fi)
        ctx.ob("S08.refuse", fi.qual + " (handlers)", {"NotImplementedError", "ValueError"} <= hs or hs & {"Exception", "BaseException"},
               "the errors of reading ahead (NotImplementedError, ValueError) must be handled: %s" % sorted(hs), fi)


@rule("S08")
def peekable(ctx):
    R = "S08.peekable"
    for fi in ctx.funcs(S + "_make_peekable"):
        kinds = set()
        for p in ctx.run(fi, names=("stream",), track=lambda a: True, excev=True):
            if p.ctl == "raise":
                ctx.ob(R, fi.qual, p.implicit, "a stream is refused: %s" % result(p), fi)
                continue
            f = facts(p)
            r = show(p.val)
            pk = f.get("hasattr(stream, 'peek')")
            seekable = f.get("hasattr(stream, 'tell')") and f.get("hasattr(stream, 'seek')")
            un = f.get("hasattr(stream, 'tell')") is False or f.get("hasattr(stream, 'seek')") is False
            used = [show(e.t) for e in p.events if e.kind == "call" and e.t.a[0].op == "attr" and
                    show(e.t.a[0].a[0]) == "stream"]
            ctx.ob("S08.consume", fi.qual, not used, "the stream is used: %s" % used, fi)
            if pk:
                kinds.add("own")
                ctx.ob(R, fi.qual, r == "stream", "a stream with peek must be used as it is: %s" % r, fi)
            elif r.endswith("_PeekableReader(stream)"):
                failed = any(e.kind == "except" for e in p.events)
                kinds.add("seek" if seekable else "last")
                ctx.ob(R, fi.qual, bool(seekable) or un and failed, "a stream without tell or seek must be buffered", fi)
            else:
                kinds.add("buffer")
                ctx.ob(R, fi.qual, pk is False and un and r.rpartition("(")[0].endswith("BufferedReader") and
                       r.endswith("(stream)"), "with %s the stream must be wrapped accordingly: %s" % (sorted(f.items()), r), fi)
        ctx.ob(R, fi.qual + " (kinds)", kinds == {"own", "seek", "last", "buffer"}, "the cases %s are told apart" %
               sorted(kinds), fi)
    c = S + "_PeekableReader"
    for fi in ctx.funcs(c + ".peek"):
        n = 0
        for p in ctx.run(fi, names=("self", "n"), self_type=c, track=lambda a: True, raises="all", excev=True):
            seq = [(e.t.a[0].a[1], show(tm.cargs(e.t)[0]) if tm.cargs(e.t) else "") for e in p.events if e.kind == "call"
                   and e.t.a[0].op == "attr" and show(e.t.a[0].a[0]) == "self.stream" and e.t.a[0].a[1] != "flush"]
            if p.ctl == "ret":
                n += 1
                ops = [s for s, _ in seq]
                pos = [a for s, a in seq if s == "seek"]
                reads = [s for s in ops if s in ("read", "read1", "readinto", "readline", "readall")]
                ok = "tell" in ops and len(reads) == 1 and ops.index("tell") < ops.index(reads[0]) and ops[-1] == "seek" \
                    and pos and pos[-1].startswith("self.stream.tell()") and "+" not in pos[-1] and pos[-1] in (
                        "self.stream.tell()",)
                ctx.ob("S08.position", fi.qual + " (first)", bool(reads) and (
                    "seek" in ops[:ops.index(reads[0])] or facts(p).get("self.stream.seekable()") is True),
                    "the stream is read before it is known that its position can be restored", fi)
                ctx.ob("S08.position", fi.qual, ok, "the position is not restored after reading ahead: %s" % seq, fi)
                ctx.ob("S08.position", fi.qual + " (chunk)", show(p.val).startswith("self.stream.read(n)"),
                       "the bytes read ahead must be returned: %s" % result(p), fi)
                nf = any(e.kind == "call" and show(e.t) == "self.stream.flush()" for e in p.events)
                hf = facts(p).get("hasattr(self.stream, 'flush')")
                ctx.ob("S08.flush", fi.qual, nf or hf is False, "pending output is not flushed before the position is taken", fi)
            elif any(e.kind == "except" for e in p.events) and not p.implicit:
                ctx.ob("S08.unpeekable", fi.qual, result(p) == "raise NotImplementedError", "a stream that cannot be peeked "
                       "must be reported with NotImplementedError: %s" % result(p), fi)
            elif not p.implicit:
                ctx.ob("S08.unpeekable", fi.qual, False, "peek raises %s" % result(p), fi)
        if not n:
            raise AnalysisError("peek never returns")
        hs = caught_names(ctx, fi)
        ctx.ob("S08.unpeekable", fi.qual + " (handlers)", {"AttributeError", "OSError"} <= hs or hs & {"Exception", "BaseException"},
               "streams without tell or seek and streams that refuse seek must be handled: %s" % sorted(hs), fi)
    for m, arg in (("read", "n"), ("readline", ""), ("tell", ""), ("close", "")):
        for fi in ctx.funcs("%s.%s" % (c, m)):
            for p in ctx.run(fi, names=("self", "n"), self_type=c, track=lambda a: True):
                if p.ctl == "raise":
                    continue
                ctx.ob("S08.delegate", fi.qual, result(p) == "ret self.stream.%s(%s)" % (m, arg), "must pass on to the stream: "
                       "%s" % result(p), fi)
    for fi in ctx.funcs(c + ".__init__"):
        for p in ctx.run(fi, names=("self", "stream"), self_type=c):
            at = {tm.cval(e.x.a[0]): show(e.x.a[1]) for e in p.events if e.kind == "setattr"}
            ctx.ob("S08.delegate", fi.qual, at.get("stream") == "stream", "the stream is not kept", fi)


@rule("S08")
def callers(ctx):
    """the stream that is identified is the peekable one, and the one that is loaded"""
    for name in ("load_module", "load_module_asdict"):
        for fi in ctx.funcs(S + name):
            n = 0

            def keep(kind, t, x=None):
                return kind == "call" and x is None and show(t.a[0]) in (
                    S + "_identify_module", S + "load_module", D + "Unpickler")
            for p in ctx.run(fi, keep=keep, track=lambda a: "hasattr(" in show(a) or show(a) == "filename is None"):
                ids = [tm.cargs(e.t)[0] for e in p.events if show(e.t.a[0]) == S + "_identify_module"]
                use = [tm.cargs(e.t)[0] for e in p.events if show(e.t.a[0]) in (S + "load_module", D + "Unpickler")]
                for t in ids:
                    n += 1
                    ctx.ob("S08.wrap", fi.qual, show(t.a[0]) == S + "_make_peekable" if t.op == "call" else False,
                           "%s is identified without making it peekable" % show(t), fi)
                    ctx.ob("S08.wrap", fi.qual + " (same)", all(u is t for u in use), "the state is loaded from %s, the module "
                           "is identified from %s" % ([show(u) for u in use], show(t)), fi)
            if not n:
                raise AnalysisError("%s identifies nothing" % name)
