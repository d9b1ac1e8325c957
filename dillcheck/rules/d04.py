"""D04: diagnostic helpers; D05: reference chains."""
import re

from .. import terms as tm
from ..lib import calls, facts, no_trace, result, run_with_closures, show
from ..program import AnalysisError
from . import rule
from .d03 import arg, is_call, sources

D, DT, PT = "dill._dill.", "dill.detect.", "dill.pointers."
NARROW = {"TypeError", "AssertionError", "NotImplementedError", "PicklingError", "UnpicklingError"}


def exc_names(s):
    return {x.strip().rpartition(".")[2] for x in s.strip("()").split(",") if x.strip()}


@rule("D04")
def pickles(ctx):
    R = "D04.pickles"
    for fi in ctx.funcs(D + "pickles"):
        ps = ctx.run(fi, names=("obj", "exact", "safe"), keep=no_trace, track=lambda t: True, excev=True)
        copies = {show(e.t) for p in ps for e in p.events if e.kind in ("call", "raises") and is_call(e.t, D + "copy")}
        want = {"dill._dill.copy(obj, **=**kwds)", "dill._dill.copy(obj, **=**kwds)"}
        ctx.ob(R, fi.qual + " copy", len(copies) == 1 and copies <= want,
               "the object must be copied with the options given: %s" % sorted(copies), fi)
        if len(copies) != 1:
            continue
        C = copies.pop()
        n = 0
        for p in ps:
            F = facts(p)
            exc = [show(e.t) for e in p.events if e.kind == "except"]
            failed = any(e.kind == "raises" and is_call(e.t, D + "copy") for e in p.events)
            made = any(e.kind == "call" and show(e.t) == C for e in p.events)
            if p.ctl == "raise":
                if not p.implicit:
                    ctx.ob(R, fi.qual, False, "fails with %s" % result(p), fi)
                continue
            n += 1
            v = show(p.val)
            for x in exc:
                names = exc_names(x)
                inner = names <= {"AttributeError", "TypeError", "Exception"} and "AttributeError" in names
                ok = inner or names <= NARROW or (F.get("safe") is True and names <= NARROW | {"Exception"})
                ctx.ob("D04.trapped", fi.qual, ok, "where safe is %s the exceptions trapped are %s" % (
                    F.get("safe"), sorted(names)), fi)
            outer = [x for x in exc if not (exc_names(x) <= {"AttributeError", "TypeError"} and "AttributeError" in exc_names(x))]
            if failed and not outer:
                ctx.ob("D04.trapped", fi.qual, False, "a failing copy is answered by %s" % v, fi)
                continue
            if outer:
                last = outer[-1]
                full = exc_names(last)
                if F.get("safe"):
                    ctx.ob("D04.trapped", fi.qual + " safe", full == {"Exception"} or "BaseException" in full, "in safe mode "
                           "any exception gives a negative answer, here only %s" % sorted(full), fi)
                else:
                    ctx.ob("D04.trapped", fi.qual + " normal", full == NARROW, "pickling-related exceptions give a negative "
                           "answer, here %s" % sorted(full), fi)
                ctx.ob("D04.trapped", fi.qual, v in ("False", "None"), "a failure gives %s" % v, fi)
                continue
            eq = [b for k, b in F.items() if C in k and "obj" in k.replace(C, "") and (" == " in k) and
                  not k.startswith(("type(", "repr(", "hasattr(", "str(")) and " is " not in k.replace(C, "")]
            eqk = [k for k, b in F.items() if C in k and "obj" in k.replace(C, "") and (" == " in k) and
                   not k.startswith(("type(", "repr(", "hasattr(", "str(")) and " is " not in k.replace(C, "")]
            whole = ("%s == obj" % C, "obj == %s" % C)
            shapes = ("%s.shape == obj.shape" % C, "obj.shape == %s.shape" % C)
            for k, b in zip(eqk, eq):
                k1 = re.sub(r"^bool\((.*)\)$", r"\1", k)
                k1 = k1.replace(".toarray()", "").replace("(%s).all()" % whole[0], whole[0]).replace(
                    "(%s).all()" % whole[1], whole[1])
                ctx.ob("D04.equal", fi.qual, k1 in whole or (k in shapes and (not b or k != eqk[-1])),
                       "the copy is compared by: %s" % k, fi)
                if b and k1 in whole and k.endswith(".all()") and ".toarray()" not in k:
                    ctx.ob("D04.equal", fi.qual + " shape", any(F.get(x) is True for x in shapes),
                           "elements are compared (%s) without the shapes: a broadcast value is no equal copy" % k, fi)
            E = eq[-1] if eq else None
            E = eq[-1] if eq else None
            same = next((b for k, b in F.items() if k in (
                "type(%s) is type(obj)" % C, "type(obj) is type(%s)" % C, "type(%s) == type(obj)" % C)), None)
            rep = next((b for k, b in F.items() if k in (
                "repr(type(%s)) == repr(type(obj))" % C, "repr(type(obj)) == repr(type(%s))" % C)), None)
            got = {"True": True, "False": False, "None": False}.get(v)
            if got is None:
                if v in ("type(%s) is type(obj)" % C, "type(obj) is type(%s)" % C) and same is not None:
                    got = same
                elif v in ("repr(type(%s)) == repr(type(obj))" % C, "repr(type(obj)) == repr(type(%s))" % C):
                    got = rep if rep is not None else "repr"
                elif any(k == v for k in F):
                    got = F[v]
            if E is None or not made:
                ctx.ob(R, fi.qual, False, "answers %s without comparing a copy" % v, fi)
                continue
            if E:
                exp = {True}
            elif F.get("exact") is None:
                ctx.ob(R, fi.qual, False, "answers %s for an unequal copy whatever exact says" % v, fi)
                continue
            elif F.get("exact"):
                exp = {False}
            elif same:
                exp = {True}
            elif same is None and rep is None:
                ctx.ob(R, fi.qual, False, "answers %s for an unequal copy without comparing types" % v, fi)
                continue
            else:
                exp = {rep} if rep is not None else {"repr"}
            ctx.ob(R, fi.qual, got in exp and (got is not True or True in exp), "where %s: answers %s" % (
                ", ".join(("" if b else "not ") + k for k, b in (("equal", E), ("exact", F.get("exact")), ("same type", same))
                          if b is not None), v), fi)
        if not n:
            raise AnalysisError("pickles has no normal path")
    ctx.floor(R, 20)
    ctx.floor("D04.trapped", 8)


@rule("D04")
def check(ctx):
    """the check in another process dumps with the options given and loads exactly that pickle"""
    for fi in ctx.funcs(D + "check"):
        ps = ctx.run(fi, names=("obj",), keep=no_trace, track=lambda t: True)
        n = 0
        for p in ps:
            if p.ctl != "ret":
                continue
            n += 1
            calls = [(e, show(e.t)) for e in p.events if e.kind == "call"]
            dumps = [s for e, s in calls if is_call(e.t, D + "dumps")]
            run = [s for e, s in calls if s.startswith(("subprocess.", "os."))]
            took = {tm.cval(e.x.a[1]) for e in p.events if e.kind == "mut" and show(e.t) == "**kwds"
                    and len(e.x.a) > 1 and tm.is_const(e.x.a[1])}
            line = p.events[-1].line
            ctx.ob("D04.check", fi.qual + " options", dumps == ["dill._dill.dumps(obj, **args, **=**kwds)"] and
                   took <= {"verbose", "python"}, "the object is dumped by %s after %s were taken out" % (
                       dumps, sorted(map(str, took))), fi, line)
            ctx.ob("D04.check", fi.qual + " process", len(run) == 1 and bool(dumps) and dumps[0] in run[0] and
                   "loads(" in run[0], "the pickle is loaded by %s" % run, fi, line)
            py = next((v for k, v in {show(k): v for k, v in p.facts.items()}.items()
                       if "'python'" in k and k.endswith(" is None")), None)
            ctx.ob("D04.check", fi.qual + " interpreter", bool(run) and (
                ("sys.executable" in run[0]) if py else ("'python'" in run[0]) if py is False else
                "sys.executable" in run[0] and "'python'" in run[0]),
                "the interpreter is not the one given, or by default this one: %s" % run, fi, line)
        if not n:
            raise AnalysisError("check has no normal path")


def opt(t, i, name, want):
    a = arg(t, i, name)
    return a is not None and show(a) == want


def test_call(t, what, of):
    """pickles(of, exact, safe)"""
    return is_call(t, D + "pickles") and show(arg(t, 0, "obj")) == of and opt(t, 1, "exact", "exact") and opt(t, 2, "safe", "safe")


@rule("D04")
def lists(ctx):
    R = "D04.helpers"
    for nm, leaf in (("badobjects", "obj"), ("badtypes", "type(obj)"), ("errors", None)):
        for fi in ctx.funcs(DT + nm):
            seen = set()
            for p in ctx.run(fi, names=("obj", "depth", "exact", "safe"), keep=no_trace, track=lambda t: True, excev=True):
                if p.ctl == "raise":
                    if not p.implicit:
                        ctx.ob(R, fi.qual, False, "fails with %s" % result(p), fi)
                    continue
                F = facts(p)
                v = show(p.val)
                d = F.get("depth")
                if d is None:
                    d = next((not b for k, b in F.items() if k in ("depth == 0", "0 == depth", "depth < 1")), None)
                if d is None:
                    ctx.ob(R, fi.qual, False, "the depth is not considered", fi)
                    continue
                exc = [show(e.t) for e in p.events if e.kind == "except"]
                tests = [(k, b) for k, b in p.facts.items() if is_call(k, D + "pickles")]
                if not d and leaf:
                    ok = len(tests) == 1 and test_call(tests[0][0], nm, "obj") and v == ("None" if tests[0][1] else leaf)
                    seen.add(("leaf", tests[0][1] if tests else None))
                    ctx.ob(R, fi.qual + " leaf", ok, "at depth 0 must give %s exactly if the object fails to pickle "
                           "with these options: %s where %s" % (leaf, v, [show(k) for k, _ in tests]), fi)
                    continue
                if not d:
                    C = "dill._dill.copy(obj)"
                    # the copy, or its comparison, fails
                    failed = any(e.kind == "raises" and (is_call(e.t, D + "copy") or C + " == obj" in show(e.t) or
                                                         show(e.t) in (C + ".shape", "obj.shape")) for e in p.events)
                    whole = (C + " == obj", "obj == " + C)
                    shapes = (C + ".shape == obj.shape", "obj.shape == %s.shape" % C)
                    eq = next((b for k, b in F.items() if k in whole), None)
                    el = next((b for k, b in F.items() if k in ["(%s).all()" % w for w in whole]), None)
                    sh = next((b for k, b in F.items() if k in shapes), None)
                    ty = next((b for k, b in F.items() if k in ("type(%s) is type(obj)" % C, "type(obj) is type(%s)" % C)), None)
                    if sh is False or el is False:
                        eq = False
                    elif sh and el:
                        eq = True
                    elif eq and not exc and not any(k.startswith(("hasattr(", "isinstance(")) and (
                            C in k or "obj" in k) and not b for k, b in F.items()):
                        eq = None       # of two arrays this is no truth value
                    if exc and not failed and F.get("exact") and eq is None and ty is None:
                        failed = True   # an attribute of the copy could not be read
                    if failed or (F.get("exact") and eq is False) or ty is False:
                        ok = bool(exc) and (v.startswith("sys.exc_info()[1]") or v.startswith("exc(")) and \
                            all(exc_names(x) <= {"Exception", "BaseException"} for x in exc)
                        seen.add(("leaf", False))
                        what = "the error"
                    else:
                        ok = v == "None" and not exc and ty is True and (eq is True or F.get("exact") is False)
                        seen.add(("leaf", True))
                        seen.add(("exact", F.get("exact")))
                        what = "None"
                    ctx.ob(R, fi.qual + " leaf", ok, "at depth 0 must give %s: %s where %s" % (
                        what, v, sorted(k for k in F if F[k])), fi)
                    continue
                of = "getattr(obj, elem(dir(obj)))"
                src = list(sources(p.val))
                if not tests:
                    # reading the attribute failed
                    ok = nm == "errors" and exc and len(src) == 1 and src[0][1].op == "kv" and \
                        show(src[0][1].a[0]) == "elem(dir(obj))" and show(src[0][1].a[1]).startswith(("sys.exc_info()[1]", "exc("))
                    ctx.ob(R, fi.qual + " unreadable", bool(ok), "members must be tested: %s" % v, fi)
                    continue
                k, b = tests[0]
                ok = len(tests) == 1 and test_call(k, nm, of)
                ctx.ob(R, fi.qual + " test", ok, "each member must be tested with these options: %s" % show(k), fi)
                seen.add(("member", b))
                if b:
                    ctx.ob(R, fi.qual + " members", not src, "a member that pickles is listed: %s" % v, fi)
                    continue
                ok = len(src) == 1 and src[0][1].op in ("kv", "tuple") and len(src[0][1].a) == 2 and \
                    show(src[0][1].a[0]) == "elem(dir(obj))"
                if ok:
                    c = src[0][1].a[1]
                    ok = is_call(c, DT + nm) and show(arg(c, 0, "obj")) == of and \
                        show(arg(c, 1, "depth")) in ("binop('Sub', depth, 1)", "add(depth, -1)", "sub(depth, 1)") and \
                        opt(c, 2, "exact", "exact") and opt(c, 3, "safe", "safe")
                ctx.ob(R, fi.qual + " members", ok, "a member that fails must be listed with what is wrong one level "
                       "deeper, with these options: %s" % v, fi)
            ctx.ob(R, fi.qual + " cases", {("leaf", True), ("leaf", False), ("member", True), ("member", False)} <= seen and
                   (nm != "errors" or {("exact", True), ("exact", False)} <= seen),
                   "cases distinguished: %s" % sorted(seen, key=str), fi)
    for fi in ctx.funcs(DT + "baditems"):
        for p in ctx.run(fi, names=("obj", "exact", "safe"), keep=no_trace, track=lambda t: True):
            if p.ctl == "raise":
                continue
            F = facts(p)
            it = F.get("hasattr(obj, '__iter__')")
            vals = next((b for k, b in F.items() if "'values'" in k), None)
            of = ["obj"] if it is False else ["elem(obj.values())", "elem(getattr(obj, 'values')())"] if vals else ["elem(obj)"]
            cs = [e.t for e in p.events if e.kind == "call" and is_call(e.t, DT + "badobjects")]
            ok = it is not None and (it is False or vals is not None) and len({show(c) for c in cs}) == 1 and show(arg(cs[0], 0, "obj")) in of and \
                (arg(cs[0], 1, "depth") is None or show(arg(cs[0], 1, "depth")) == "0") and opt(cs[0], 2, "exact", "exact") and opt(cs[0], 3, "safe", "safe")
            ctx.ob(R, fi.qual + " items", ok, "each item (value of a mapping, or the object itself if it has no items) must be "
                   "tested with these options: %s where %s" % ([show(c) for c in cs], sorted(F)), fi)
            if not ok:
                continue
            c = show(cs[0])
            none = next((b for k, b in F.items() if k == c + " is None"), None)
            got = [show(x) for _, x in sources(p.val)]
            ctx.ob(R, fi.qual, none is not None and got == ([] if none else [c]), "must list the items that fail and no "
                   "others: %s" % got, fi)
    ctx.floor(R, 30)


# ------------------------------------------------------------------------- chains
@rule("D05")
def entry(ctx):
    R = "D05.search"
    for nm, edge in (("parents", "gc.get_referents"), ("children", "gc.get_referrers")):
        for fi in ctx.funcs(PT + nm):
            preds = [p for f2, p in run_with_closures(ctx, fi, names=("obj", "objtype", "depth", "ignore"), inner=("x",)) if f2 is not fi]
            for p in preds:
                ctx.ob(R, fi.qual + " type test", p.ctl == "ret" and show(p.val) in ("isinstance(x, objtype)",),
                       "only objects of the given type match: %s" % show(p.val), fi)
            for p in ctx.paths(fi, ("obj", "objtype", "depth", "ignore")):
                if p.ctl == "raise":
                    continue
                F = facts(p)
                cs = [e.t for e in p.events if e.kind == "call" and is_call(e.t, PT + "find_chain")]
                if len(cs) != 1:
                    ctx.ob(R, fi.qual, False, "searches %d times" % len(cs), fi)
                    continue
                c = cs[0]
                ok = show(arg(c, 0, "obj")) == "obj" and show(arg(c, 2, "edge_func")) == edge and \
                    show(arg(c, 3, "max_depth")) == "depth" and show(arg(c, 1, "predicate")).startswith("fn(")
                ctx.ob(R, fi.qual, ok and bool(preds), "must search from the object along %s to the given depth: %s" % (edge, show(c)[:200]), fi)
                ig = arg(c, 4, "extra_ignore")
                many = F.get("hasattr(ignore, '__len__')")
                if many is None:
                    many = next((b for k, b in F.items() if "ignore" in k and ("isinstance(" in k or "__iter__" in k)), None)
                if many is None:
                    ctx.ob(R, fi.qual + " ignore", False, "a single object and a collection to ignore are not told apart", fi)
                else:
                    src = [(show(x), len(l_)) for l_, x in sources(ig)] if ig is not None else []
                    want = [("id(elem(ignore))", 1)] if many else [("id(ignore)", 0)]
                    ctx.ob(R, fi.qual + " ignore", src == want, "the identities of %s must be ignored: %s" % (
                        "all objects in the collection" if many else "the object", src), fi)
                v = show(p.val)
                s = show(c)
                if nm == "parents":
                    ok = v in (s + "[slice(None, None, -1)]", "list(reversed(%s))" % s, "[splat(reversed(%s))]" % s) or \
                        v == s and sum(show(e.t) == s + ".reverse()" for e in p.events if e.kind == "call") == 1
                else:
                    ok = (v == s or v == "list(%s)" % s or v == "[splat(%s)]" % s) and not any(
                        e.kind == "call" and show(e.t).startswith(s + ".") for e in p.events)
                ctx.ob(R, fi.qual + " order", ok, "the chain must be in the order of the references: %s" % v[-80:], fi)
    for fi in ctx.funcs(PT + "parent"):
        for p in ctx.paths(fi, ("obj", "objtype", "ignore")):
            if p.ctl == "raise":
                continue
            cs = {show(e.t) for e in p.events if e.kind == "call" and is_call(e.t, PT + "parents")}
            t = [e.t for e in p.events if e.kind == "call" and is_call(e.t, PT + "parents")]
            ok = len(cs) == 1 and show(arg(t[0], 0, "obj")) == "obj" and show(arg(t[0], 1, "objtype")) == "objtype" and \
                show(arg(t[0], 2, "depth") or tm.const(1)) == "1" and arg(t[0], 3, "ignore") is not None and \
                show(arg(t[0], 3, "ignore")) == "ignore"
            ctx.ob(R, fi.qual, ok, "must look for direct parents with these arguments: %s" % sorted(cs), fi)
            if not ok:
                continue
            s = cs.pop()
            last = ["popped(%s)" % s, "%s[-1]" % s]
            F = facts(p)
            me = next((b for k, b in F.items() if k in ["obj is " + x for x in last] + [x + " is obj" for x in last]), None)
            v = show(p.val)
            ctx.ob(R, fi.qual + " result", me is not None and (v == "None" if me else v in last),
                   "must be the last of the chain, or None if that is the object itself: %s" % v[-80:], fi)
    ctx.floor(R, 8)


@rule("D05")
def chain(ctx):
    R = "D05.chain"
    for fi in ctx.funcs(PT + "find_chain"):
        ps = ctx.run(fi, names=("obj", "predicate", "edge_func", "max_depth", "extra_ignore"), keep=no_trace,
                     track=lambda t: True, ids=True, local=True)
        found = notfound = grow = 0
        for p in ps:
            if p.ctl == "raise":
                if not p.implicit:
                    ctx.ob(R, fi.qual, False, "fails with %s" % result(p), fi)
                continue
            F = facts(p)
            v = show(p.val)
            src = [show(x) for _, x in sources(p.val)]
            if src == ["obj"]:
                notfound += 1
                hit = [k for k, b in F.items() if k.startswith("predicate(") and b]
                ctx.ob(R, fi.qual + " nothing found", not hit, "an object that matches is not reported", fi)
            else:
                found += 1
                head = src[0] if src else None
                # the predicate held for the head when the chain was started
                ev = [e for e in p.events if e.kind == "call" and show(e.t) == "predicate(%s)" % head]
                pos = ev and any(e.facts.get(ev[-1].t) is True for e in p.events if e.kind == "local") or \
                    F.get("predicate(%s)" % head) is True
                ctx.ob(R, fi.qual + " match", bool(pos), "the chain starts with an object that was not matched: %s" % v[:120], fi)
                ok = True
                prev = head
                for s in src[1:]:
                    ok = ok and s.endswith("[id(%s)]" % prev) and "id(obj): None" in s or ok and \
                        s.startswith("get(") and "id(%s)" % prev in s and "id(obj): None" in s
                    prev = s
                end = [k for k, b in F.items() if b and k.endswith(" is None") and "id(%s)" % prev in k]
                ctx.ob(R, fi.qual + " links", ok and bool(end), "the chain must follow the recorded parents until there is none: %s" % (
                    [x[-60:] for x in src]), fi)
            # growth of the search
            groups = {}
            for e in p.events:
                if e.kind == "call" and show(e.t.a[0]) == "edge_func":
                    T_ = show(tm.cargs(e.t)[0])
                    fs = {show(k): b for k, b in e.facts.items()}
                    ok = any(b and k.endswith("[id(%s)] < max_depth" % T_) and "id(obj): 0" in k for k, b in fs.items()) or \
                        any(b and k == "0 < max_depth" for k, b in fs.items())
                    ctx.ob("D05.depth", fi.qual, ok, "references are followed beyond the given depth: where %s" % (
                        [k[-60:] for k in fs]), fi, e.line)
                if e.kind != "local":
                    continue
                for x in e.x.a:
                    while x.op == "each":
                        x = x.a[1]
                    t = x.a[0] if x.op == "kv" else x
                    s = show(t)
                    el = s[3:-1] if s.startswith("id(elem(") else s
                    if not el.startswith("elem(") or "edge_func(" not in el:
                        continue
                    init = ""
                    if x.op == "kv":
                        val = show(x.a[1])
                        m = re.match(r"elem\((?:edge_func\()(.*)\)\)$", el)
                        T_ = m.group(1) if m else None
                        if val == T_:
                            role = "parent"
                        elif val.endswith("[id(%s)], 1)" % T_) and val.startswith("add(") and "id(obj): 0" in val or \
                                val == "1":
                            role = "depth"
                        else:
                            role = "?" + val[-40:]
                    elif s == el:
                        role = "queue"
                    else:
                        role = "set"
                    groups.setdefault(el, set()).add(role)
                    fs = {show(k): b for k, b in e.facts.items()}
                    ign = [k for k, b in fs.items() if k.startswith("id(%s) in " % el) and b is False and "splat(extra_ignore)" in k]
                    ctx.ob("D05.ignore", fi.qual, bool(ign), "an object in the ignore argument may be passed through", fi, e.line)
                    if ign:
                        own = ["id({id(obj): 0", "id({id(obj): None", "id([obj", "sys._getframe()", "id(edge_func("]
                        ctx.ob("D05.own", fi.qual, all(o in ign[0] for o in own), "the search passes through its own "
                               "bookkeeping: %s" % [o for o in own if o not in ign[0]], fi, e.line)
                    new = [k for k, b in fs.items() if b is False and
                           (k in ("id(%s) == id(obj)" % el, "id(obj) == id(%s)" % el) or
                            k.startswith("id(%s) in {id(obj): " % el))]
                    ctx.ob("D05.once", fi.qual, bool(new), "an object may be visited twice, so its place in the chain "
                           "changes and cycles need not end", fi, e.line)
            for el, roles in groups.items():
                grow += 1
                ctx.ob(R, fi.qual + " bookkeeping", {"parent", "depth", "queue"} <= roles and not any(r.startswith("?") for r in roles),
                       "every new object must be queued with its parent and its depth (one more): %s" % sorted(roles), fi)
            pops = [e for e in p.events if e.kind == "local" and e.t.a[0] == "list" and any(x.op == "mut" for x in e.x.a)]
            for e in pops:
                for x in e.x.a:
                    if x.op == "mut":
                        ctx.ob("D05.order", fi.qual, show(x) in ("mut('pop', 0)", "mut('popleft')"),
                               "objects must be visited nearest first: %s" % show(x), fi, e.line)
        ctx.ob(R, fi.qual + " cases", bool(found and notfound and grow), "found %d, not found %d, followed %d" % (
            found, notfound, grow), fi)
    ctx.floor("D05.depth", 4)
    ctx.floor("D05.ignore", 6)
