"""D06: difference tracking (dill.__diff) reports exactly what changed since an object was memorised."""
import ast
import re

from .. import terms as tm
from ..lib import facts, result, show
from ..program import AnalysisError
from . import rule
from .d03 import arg, is_call, sources

M = "dill.__diff."


def short(s):
    return s.replace(M, "")


def canon(s):
    return short(s).replace("get_attrs(obj)", "A").replace("get_seq(obj)", "S").replace(
        "memo[id(obj)]", "M").replace("elem(A.values())", "A[elem(A)]").replace("elem(S.values())", "S[elem(S)]")


def cfacts(p):
    """facts in canonical text; equality of identities is one spelling"""
    out = {}
    for k, b in p.facts.items():
        s = canon(show(k))
        if k.op in ("eq", "is") and len(k.a) == 2:
            x, y = sorted(canon(show(a)) for a in k.a)
            s = "%s == %s" % (x, y) if k.op == "eq" else canon(show(k))
        out[s] = b
    return out


def pairs(t):
    """(loop, key, value) contributions of a dictionary term"""
    for lp, x in sources(t):
        if x.op == "kv" or (x.op == "tuple" and len(x.a) == 2):
            yield tuple(canon(show(y)) for y in lp), canon(show(x.a[0])), canon(show(x.a[1]))
        else:
            yield tuple(canon(show(y)) for y in lp), None, canon(show(x))


def opens(p):
    return [(i, e) for i, e in enumerate(p.events)]


@rule("D06")
def attributes(ctx):
    R = "D06.attrs"
    for fi in ctx.funcs(M + "get_attrs"):
        for p in ctx.paths(fi, ("obj",)):
            if p.ctl == "raise" and p.implicit:
                continue
            F = {short(k): v for k, v in facts(p).items()}
            plain = F.get("type(obj) in builtins_types")
            cls = F.get("type is type(obj)", F.get("type(obj) is type", F.get("isinstance(obj, type)")))
            own = F.get("obj in builtins_types")
            v = result(p)
            if plain or (cls and own):
                want = v == "ret None"
            elif plain is False and (cls is False or own is False):
                want = v == "ret getattr(obj, '__dict__', None)"
            else:
                want = False
            ctx.ob(R, fi.qual, want, "must be the attribute dictionary, and None for plain builtin values and types only: %s" % v, fi)
    ctx.floor(R, 3)


@rule("D06")
def items(ctx):
    R = "D06.items"
    protocol = ["__contains__", "__iter__", "__len__"]
    for fi in ctx.funcs(M + "get_seq"):
        kinds = set()
        for p in ctx.paths(fi, ("obj", "cache")):
            if p.ctl == "raise":
                if not p.implicit:
                    ctx.ob(R, fi.qual, False, "fails with %s" % result(p), fi)
                continue
            F = {short(k).replace("type(obj)", "obj.__class__"): v for k, v in facts(p).items()}
            stores = [(show(e.t), canon(show(e.x)).replace("type(obj)", "obj.__class__")) for e in p.events if e.kind == "setitem"]
            v = show(p.val)
            known = F.get("obj.__class__ in cache")
            hit = F.get("cache[obj.__class__]")
            if hit is None:
                hit = next((b for k, b in F.items() if k.startswith("get(cache, obj.__class__")), None)
            arr = any(b and "numpy." in k and "obj.__class__" in k for k, b in F.items())
            has = [F.get("hasattr(obj, '%s')" % m) for m in protocol] + \
                  [F.get("hasattr(obj.__class__, '%s')" % m) for m in protocol]
            items_ = v in ("obj", "obj.copy()", "{**obj}", "[splat(obj)]")
            if known and hit is not None:
                kinds.add("known" if hit else "not")
                ctx.ob(R, fi.qual + " known", (items_ if hit else v == "None") and not stores,
                       "for a type already seen: expected %s, found %s %s" % ("the items" if hit else "None", v, stores), fi)
            elif known:
                ctx.ob(R, fi.qual + " known", False, "what is known of the type is not used: %s" % v, fi)
            elif arr:
                kinds.add("array")
                full = F.get("obj.shape") and F.get("obj.size")
                ctx.ob(R, fi.qual + " array", v == ("obj" if full else "[]") and not stores, "an array must give its items: %s" % v, fi)
            elif all(has):
                kinds.add("new")
                ctx.ob(R, fi.qual + " container", items_ and stores == [("cache", "(obj.__class__, True)")],
                       "a container must give its items and be remembered as one: %s %s" % (v, stores), fi)
            else:
                kinds.add("other")
                ctx.ob(R, fi.qual + " other", v == "None" and stores == [("cache", "(obj.__class__, False)")] and any(b is False for b in has),
                       "None is for what cannot be iterated, has no length or no membership test: %s %s" % (v, stores), fi)
            if v == "obj" and not arr:
                ctx.ob(R, fi.qual + " copy", F.get("hasattr(obj, 'copy')") is False or F.get("callable(obj.copy)") is False,
                       "the items must come from a copy where there is one", fi)
        ctx.ob(R, fi.qual + " kinds", kinds >= {"known", "not", "new", "other", "array"}, "kinds treated: %s" % sorted(kinds), fi)
        # what is known beforehand
        d = [x for x in fi.node.args.defaults + fi.node.args.kw_defaults if isinstance(x, ast.Dict)]
        tab = {ast.unparse(k): ast.unparse(v) for x in d for k, v in zip(x.keys, x.values)}
        for k, want in (("list", "True"), ("set", "True"), ("dict", "True"), ("tuple", "True"), ("str", "False"), ("type", "False")):
            ctx.ob("D06.known", fi.qual + " " + k, not tab or tab.get(k, want) == want, "%s %s a container of objects" % (
                k, "is" if want == "True" else "is not"), fi)
    ctx.floor(R, 15)


@rule("D06")
def memorising(ctx):
    R = "D06.memorise"
    for fi in ctx.funcs(M + "memorise"):
        n = 0
        for p in ctx.paths(fi, ("obj", "force")):
            if p.ctl == "raise":
                if not p.implicit:
                    ctx.ob(R, fi.qual, False, "fails with %s" % result(p), fi)
                continue
            F = cfacts(p)
            sets = [(i, e) for i, e in opens(p) if e.kind == "setitem" and short(show(e.t)) in ("memo", "id_to_obj")]
            recs = [(i, e) for i, e in opens(p) if e.kind == "call" and is_call(e.t, M + "memorise")]
            done, force, excl = F.get("id(obj) in memo"), F.get("force"), F.get("id(obj) in dont_memo")
            if (done and force is False) or excl:
                ctx.ob(R, fi.qual + " skipped", not sets and not recs, "must be left as it is", fi)
                continue
            n += 1
            if not (excl is False and (done is False or force)):
                ctx.ob(R, fi.qual, False, "the memo is changed where it should not: [%s]" % ", ".join(sorted(F)), fi)
                continue
            last = {}
            for i, e in sets:
                last.setdefault(short(show(e.t)), []).append((i, e.x))
            if sorted(last) != ["id_to_obj", "memo"] or any(len(x) != 1 for x in last.values()):
                ctx.ob(R, fi.qual, False, "must be recorded once, together with the object: %s" % sorted(last), fi)
                continue
            (i, rec), (_, keep) = last["memo"][0], last["id_to_obj"][0]
            ctx.ob(R, fi.qual + " kept", show(keep) == "(id(obj), obj)", "the object must be kept alive under its identity: %s" % show(keep), fi)
            ok = rec.op == "tuple" and show(rec.a[0]) == "id(obj)" and rec.a[1].op == "tuple" and len(rec.a[1].a) == 2
            if not ok:
                ctx.ob(R, fi.qual, False, "recorded under %s" % show(rec)[:100], fi)
                continue
            at, sq = rec.a[1].a
            noat, nosq = F.get("A is None"), F.get("S is None")
            isdict, sized = F.get("hasattr(S, 'items')"), F.get("hasattr(S, '__len__')")
            want_rec = []
            if noat is None or nosq is None:
                ctx.ob(R, fi.qual, False, "absent attributes or items are not recognised", fi)
                continue
            if noat:
                oka = show(at) == "None"
            else:
                ps = list(pairs(at))
                oka = len(ps) == 1 and ps[0][1:] == ("elem(A)", "id(A[elem(A)])")
                want_rec.append("A[elem(A)]")
            if nosq or (isdict is False and sized is False):
                oks = show(sq) == "None"
                if not nosq:
                    want_rec.append("S")
            elif isdict:
                ps = list(pairs(sq))
                oks = len(ps) == 1 and ps[0][1:] == ("id(elem(S))", "id(S[elem(S)])")
                want_rec += ["elem(S)", "S[elem(S)]"]
            elif isdict is False:
                ss = [(len(lp), canon(show(x))) for lp, x in sources(sq)]
                oks = ss == [(1, "id(elem(S))")] and sq.op == "list"
                want_rec.append("elem(S)")
            else:
                oks = False
            ctx.ob(R, fi.qual + " attributes", oka, "must be the identity of each attribute by name: %s" % canon(show(at))[:150], fi)
            ctx.ob(R, fi.qual + " items", oks, "must be the identities of the items in order, or of keys and values: %s" % canon(show(sq))[:150], fi)
            got = [canon(show(arg(e.t, 0, "obj"))) for _, e in recs]
            ctx.ob(R, fi.qual + " nested", set(got) == set(want_rec), "everything it holds must be memorised: %s, expected %s" % (
                got, want_rec), fi)
            ctx.ob(R, fi.qual + " cycles", all(j > i for j, _ in recs), "must be recorded before what it holds, or cycles never end", fi)
            ctx.ob(R, fi.qual + " nested force", all(arg(e.t, 1, "force") is None or show(arg(e.t, 1, "force")) == "False"
                                                     for _, e in recs), "nested objects already known must be left as they are", fi)
        ctx.ob(R, fi.qual + " cases", n >= 8, "%d cases" % n, fi)
    ctx.floor(R, 40)


def clean(s):
    return re.sub(r", (simple|first|seen)=", ", ", s)


@rule("D06")
def comparing(ctx):
    R = "D06.changed"
    for fi in ctx.funcs(M + "whats_changed"):
        cases = set()
        for p in ctx.paths(fi, ("obj", "seen", "simple", "first")):
            F = {clean(k): v for k, v in cfacts(p).items()}
            if p.ctl == "raise" and p.implicit:
                continue
            simple = F.get("simple")
            first = F.get("first")
            seen, excl, memo = F.get("id(obj) in seen"), F.get("id(obj) in dont_memo"), F.get("id(obj) in memo")
            fresh = first and F.get("seen is None")
            v = canon(show(p.val)) if p.ctl == "ret" else "raise"
            if simple is None:
                ctx.ob(R, fi.qual, False, "the form of the result is not chosen", fi)
                continue
            if seen:
                ok = v in (("any(seen[id(obj)])", "bool(any(seen[id(obj)]))") if simple else ("seen[id(obj)]",))
                ctx.ob(R, fi.qual + " seen", ok, "an object met before must give what was found: %s" % v, fi)
                cases.add("seen")
                continue
            if excl:
                ok = v in (("False",) if simple else ("[{}, False]", "({}, False)", "seen[id(obj)]"))
                ctx.ob(R, fi.qual + " excluded", ok, "bookkeeping objects never change: %s" % v, fi)
                cases.add("excluded")
                continue
            if memo is not True:
                if simple:
                    ok = v == "True"
                else:
                    ok = result(p) == "raise RuntimeError"
                ctx.ob(R, fi.qual + " unknown", memo is False and excl is False and ok and (fresh or seen is False),
                       "an object that was not memorised counts as changed, or is refused: %s" % v, fi)
                cases.add("unknown")
                continue
            if p.ctl == "raise" or excl is not False or not (fresh or seen is False):
                ctx.ob(R, fi.qual, False, "compared although it may be in progress or excluded", fi)
                continue
            stores = [(i, e) for i, e in opens(p) if e.kind == "setitem" and show(e.t) in ("seen", "{}") and
                      canon(show(e.x)).startswith("(id(obj), ")]
            recs = [(i, e) for i, e in opens(p) if e.kind == "call" and is_call(e.t, M + "whats_changed")]
            if not fresh:
                ctx.ob(R, fi.qual + " cycles", not recs or (stores and stores[0][0] < recs[0][0]),
                       "an object in progress must be noted before what it holds is compared", fi)
                for _, e in recs:
                    sm, fs, sn = arg(e.t, 2, "simple"), arg(e.t, 3, "first"), arg(e.t, 1, "seen")
                    ok = sm is not None and show(sm) == "True" and fs is not None and show(fs) == "False" and sn is not None \
                        and show(sn) == "seen"
                    ctx.ob(R, fi.qual + " nested", ok, "nested objects are compared with the objects met so far: %s" % show(e.t)[:120], fi)
            # the verdict
            if not simple:
                rec = p.val
            else:
                rec = stores[-1][1].x.a[1] if stores else None
            if rec is None and fresh:
                continue                        # a dictionary nobody else sees
            if rec is None or rec.op != "tuple" or len(rec.a) != 2:
                ctx.ob(R, fi.qual, False, "the result is not a pair: %s" % v[:100], fi)
                continue
            C, S = rec.a
            # attributes
            noat = F.get("A is None")
            ps = list(pairs(C)) if C.op == "dict" else None
            if noat is None or ps is None:
                ctx.ob(R, fi.qual + " attributes", False, "changed attributes are %s" % canon(show(C))[:150], fi)
                continue
            gone = [x for x in ps if x[2] == "None"]
            new = [x for x in ps if x[2] != "None"]
            missing = F.get("elem(M[0]) in A")
            same = F.get("get(M[0], elem(A), None) == id(A[elem(A)])")
            if same is None and F.get("elem(A) in M[0]") is not None:
                same = F.get("id(A[elem(A)]) == M[0][elem(A)]", F.get("M[0][elem(A)] == id(A[elem(A)])"))
                if F.get("elem(A) in M[0]") is False:
                    same = False
            inner = F.get("whats_changed(A[elem(A)], seen, True, False)")
            if inner is None and fresh:
                inner = next((b for k, b in F.items() if k.startswith("whats_changed(A[elem(A)], ")), None)
            if noat:
                ok = not ps
            else:
                ok = all(x[1] == "elem(M[0])" for x in gone) and all(x[1:] == ("elem(A)", "A[elem(A)]") for x in new)
                if missing is False:
                    ok = ok and len(gone) == 1
                else:
                    ok = ok and missing is True and not gone
                if same is False or inner is True:
                    ok = ok and len(new) == 1
                else:
                    ok = ok and not new
                    if same is True:
                        ok = ok and inner is False
            cases.add(("attrs", bool(noat), missing, same, inner))
            ctx.ob(R, fi.qual + " attributes", ok, "where %s: changed attributes are %s" % (
                {k: b for k, b in F.items() if "A" in k}, ps), fi)
            # items
            none, sized = F.get("S is None"), F.get("hasattr(S, '__len__')")
            eqlen = F.get("len(M[1]) == len(S)")
            isd = F.get("hasattr(obj, 'items')", F.get("hasattr(S, 'items')"))
            if none or sized is False:
                want = False
            elif eqlen is False:
                want = True
            elif none is False and sized and eqlen and isd is not None:
                if isd:
                    same = F.get("get(M[1], id(elem(S)), None) == id(S[elem(S)])")
                    inner = [next((b for k, b in F.items() if k.startswith("whats_changed(%s, " % x)), None) for x in ("elem(S)", "S[elem(S)]")]
                else:
                    same = F.get("elem(M[1]) == id(elem(S))", F.get("id(elem(S)) == elem(M[1])"))
                    inner = [next((b for k, b in F.items() if k.startswith("whats_changed(elem(S), ")), None)]
                if same is False or any(inner):
                    want = True
                elif same and None in inner:
                    want = None
                else:
                    want = False
                cases.add(("items", isd, same, tuple(inner)))
            else:
                want = None
            ctx.ob(R, fi.qual + " items", want is not None and show(S) == str(want), "where %s: changed items is %s" % (
                {k: b for k, b in F.items() if "S" in k}, show(S)), fi)
            # the simple form
            if simple:
                s, c = show(S), canon(show(C))
                some = bool(ps)
                truth = p.facts.get(C)
                if truth is None:
                    truth = next((b for k, b in p.facts.items() if k.op == "o"), None)
                if s == "True":
                    ok = v == "True" or (v == c and truth is True) or (v == c and truth is None and some)
                else:
                    ok = v in ((c, "bool(%s)" % c) if some else ("False", c)) or (some and v == "False" and truth is False) or \
                        (some and v == "True" and truth is True)
                ok = ok or v in ("any((%s, %s))" % (c, s), "bool(%s or %s)" % (c, s))
                ctx.ob(R, fi.qual + " simple", ok, "must be true exactly if anything changed: %s for (%s, %s)" % (v[:80], c[:80], s), fi)
                if not fresh:
                    pass
            else:
                st = [canon(show(e.x)) for _, e in stores]
                if not fresh:
                    ctx.ob(R, fi.qual + " noted", st and st[-1] == "(id(obj), %s)" % canon(show(rec)), "what was found must be noted", fi)
        need = {"seen", "excluded", "unknown", ("attrs", False, False, False, None), ("attrs", False, True, True, True),
                ("attrs", False, True, True, False), ("attrs", False, True, False, None), ("items", True, True, (False, False)),
                ("items", True, False, (None, None)), ("items", False, False, (None,)), ("items", False, True, (True,)),
                ("items", False, True, (False,))}
        ctx.ob(R, fi.qual + " cases", need <= cases, "not decided: %s" % sorted(map(str, need - cases)), fi)
    ctx.floor(R, 300)


@rule("D06")
def simple_form(ctx):
    R = "D06.simple"
    for fi in ctx.funcs(M + "has_changed"):
        for p in ctx.paths(fi):
            if p.ctl == "raise" and p.implicit:
                continue
            cs = [e for e in p.events if e.kind == "call" and is_call(e.t, M + "whats_changed")]
            sets = [show(e.x) for e in p.events if e.kind == "setitem" and show(e.t).startswith("**")]
            s = show(cs[0].t) if cs else ""
            ok = len(cs) == 1 and p.val is cs[0].t and "**args" in s and "kwds" in s and \
                ("('simple', True)" in sets or "'simple': True" in s)
            ctx.ob(R, fi.qual, ok, "must be the simple form of the comparison with all arguments: %s" % s, fi)
    ctx.floor(R, 1)


@rule("D06")
def imports(ctx):
    R = "D06.import"
    for fi in ctx.funcs(M + "_imp"):
        for p in ctx.run(fi, track=lambda t: True):
            if p.ctl == "raise" and p.implicit:
                continue
            ev = [(i, e) for i, e in opens(p) if e.kind == "call"]
            imp = [i for i, e in ev if is_call(e.t, M + "__import__")]
            keys = [i for i, e in ev if show(e.t) in ("sys.modules.keys()", "sys.modules.copy()")] or \
                   [i for i, e in ev if "sys.modules" in show(e.t) and not is_call(e.t, M + "memorise")]
            mem = [(i, e) for i, e in ev if is_call(e.t, M + "memorise")]
            v = show(p.val)
            ctx.ob(R, fi.qual, len(imp) == 1 and v == short_imp(v) and show(ev_t(ev, imp)) == v, "must return what the import returned: %s" % v, fi)
            args = [show(arg(e.t, 0, "obj")) for _, e in mem]
            ok = imp and all(i > imp[0] for i, _ in mem) and any(i < imp[0] for i in keys) and (
                not mem or all(a.startswith("sys.modules[elem(") or a.startswith("elem(") for a in args))
            ctx.ob(R, fi.qual + " new modules", bool(ok) and bool(mem) and "sys.modules" in args[0], "modules that are new after the import must be memorised: %s" % args, fi)
    mod = ctx.prog.modules.get("dill.__diff")
    if mod is None:
        raise AnalysisError("no module dill.__diff")
    tree = mod.tree
    hooks = [n for n in ast.walk(tree) if isinstance(n, ast.Assign) and any(
        isinstance(t, ast.Attribute) and t.attr == "__import__" for t in n.targets)]
    top = [n for n in hooks if n in tree.body]
    keep = [k for k, n in enumerate(tree.body) if isinstance(n, ast.Assign) and any(
        isinstance(t, ast.Name) and t.id == "__import__" for t in n.targets)]
    ok = len(hooks) == 1 and top and isinstance(top[0].value, ast.Name) and top[0].value.id == "_imp" and keep and \
        keep[0] < tree.body.index(top[0])
    ctx.ob(R, "dill.__diff hook", bool(ok), "the import function must be replaced once, after the original was kept", None,
           top[0].lineno if top else 1)
    ctx.floor(R, 3)


def ev_t(ev, imp):
    return dict(ev)[imp[0]].t


def short_imp(v):
    return v if v.startswith(M + "__import__(") and "args" in v and "kwds" in v else None
