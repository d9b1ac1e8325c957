"""D03: the globals, free variables and nested code reported for a function are complete."""
import re

from .. import terms as tm
from ..lib import facts, result, run_with_closures, show
from ..program import AnalysisError
from . import rule

DT = "dill.detect."
CONT = {"set", "list", "dict", "tuple"}
WRAP = {"builtins.set", "builtins.list", "builtins.dict", "builtins.tuple", "builtins.sorted",
        "builtins.frozenset"}


def sources(t, loops=()):
    """(loops, leaf) contributions to the contents of a container term, in order"""
    t = t.a[0] if t.op == "ident" else t
    if t.op in CONT:
        for x in t.a:
            if x.op == "each":
                for y in x.a[1:]:
                    yield from child(y, loops + (x.a[0],))
            else:
                yield from child(x, loops)
    elif t.op == "call" and t.a[0].op == "g" and t.a[0].a[0] in WRAP and len(tm.cargs(t)) == 1:
        yield from sources(tm.cargs(t)[0], loops)
    elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "copy":
        yield from sources(t.a[0].a[0], loops)
    else:
        yield loops, t


def child(x, loops):
    if x.op in ("splat", "upd", "star"):
        yield from sources(x.a[0], loops)
    elif x.op == "each":
        for y in x.a[1:]:
            yield from child(y, loops + (x.a[0],))
    else:
        yield loops, x


def is_call(t, *names):
    return t.op == "call" and t.a[0].op == "g" and t.a[0].a[0] in names


def arg(t, i, name):
    a = tm.cargs(t)
    return a[i] if len(a) > i else tm.ckw(t).get(name)


def lookup(t):
    """(mapping, key, default) of M[k], M.get(k, d)"""
    if t.op == "sub":
        return t.a[0], t.a[1], None
    if t.op == "get":
        return t.a[0], t.a[1], t.a[2] if len(t.a) > 2 else tm.NONE
    return None


RECS = (DT + "_globalvars", DT + "globalvars")
BUILTIN = ("dill.detect.getmodule(sum).__dict__", "builtins.__dict__", "vars(builtins)",
           "getmodule(sum).__dict__", "inspect.getmodule(sum).__dict__")


class Shape(Exception):
    pass


def describe(F, names, globs, fn, rec):
    """canonical contributions of a names/globals pair, or Shape"""
    def leaf(t):
        s = show(t)
        if is_call(t, *RECS):
            a = arg(t, 0, "func")
            r = arg(t, 1, "recurse")
            b = arg(t, 2, "builtin")
            rtxt = show(r) if r is not None else "True"
            if r is not None and r.op == "p" and F.get(show(r)) is not None:
                rtxt = str(F[show(r)])
            btxt = show(b) if b is not None else "False"
            if b is not None and tm.is_const(b) and F.get("builtin") is tm.cval(b):
                btxt = "builtin"
            sa = show(a)
            if sa == "elem(%s.__closure__).cell_contents" % fn:
                return "closure(%s, %s)" % (rtxt, btxt)
            lk = lookup(a)
            if lk and lk[1].op == "elem":
                sub = [leaf(x) for _, x in sources(lk[1].a[0])]
                g = [leaf(x) for _, x in sources(lk[0])]
                return "nested[%s | %s](%s, %s)" % (", ".join(x for x in sorted(set(sub)) if not x.startswith("closure")),
                                                    ", ".join(g), rtxt, btxt)
            return "recursive on %s" % sa
        if s in BUILTIN:
            return "builtins"
        if s == "%s.__globals__" % fn:
            return "globals"
        for c in ("%s.__code__" % fn, fn):
            if s == c + ".co_names":
                return "co_names"
            if is_call(t, DT + "nestedglobals") and show(arg(t, 0, "func")) == c:
                r = arg(t, 1, "recurse")
                if r is None or show(r) == "True" or (r.op == "p" and F.get(show(r))):
                    return "code names"
        return s
    return [leaf(x) for _, x in sources(names)], [leaf(x) for _, x in sources(globs)]


@rule("D03")
def globals_found(ctx):
    R = "D03.globals"
    qs = [DT + "globalvars"]
    if DT + "_globalvars" in ctx.prog.funcs:
        qs.append(DT + "_globalvars")
        for fi in ctx.funcs(DT + "globalvars"):
            for p in ctx.paths(fi, ("func", "recurse", "builtin")):
                v = show(p.val)
                ctx.ob(R, fi.qual, v in ("dill.detect._globalvars(func, recurse, builtin, {})",), "must search with the "
                       "arguments given and nothing visited yet: %s" % v, fi)
        qs = qs[1:]
    for fi in [f for q in qs for f in ctx.funcs(q)]:
        n = 0
        ps = ctx.run(fi, names=("func", "recurse", "builtin", "seen"), track=lambda t: True, excev=True)
        kinds = set()
        for p in ps:
            F = facts(p)
            meth = F.get("inspect.ismethod(func)")
            if meth is None:
                meth = F.get("isinstance(func, types.MethodType)")
            fn = "func.__func__" if meth else "func"
            isf, isc = F.get("inspect.isfunction(%s)" % fn), F.get("inspect.iscode(%s)" % fn)
            if p.ctl == "raise":
                if not p.implicit:
                    ctx.ob(R, fi.qual, False, "fails with %s" % result(p), fi)
                continue
            n += 1
            v = show(p.val)
            if F.get("id(%s) in seen" % fn) or (F.get("id(func) in seen") and not meth):
                ctx.ob(R, fi.qual + " visited", v in ("seen[id(%s)]" % fn, "get(seen, id(%s), None)" % fn),
                       "a function already visited must give what was found for it: %s" % v, fi)
                continue
            if isf is not True and isc is not True:
                ctx.ob(R, fi.qual + " other", v == "{}" and isf is False and isc is False and meth is not None,
                       "anything but a function, method or code object must yield an empty result: %s" % v, fi)
                continue
            rec = F.get("recurse")
            kinds.add((bool(isf), rec))
            if rec is None:
                ctx.ob(R, fi.qual, False, "the recurse option is not considered", fi)
                continue
            empty = [show(e.t) for e in p.events if e.kind == "except"]
            final = [x for x in sources(p.val)] if p.val.op == "dict" else None
            pairs = []
            for lp, x in (final or []):
                if x.op == "kv":
                    pairs.append((x.a[0], x.a[1]))
                elif x.op == "tuple" and len(x.a) == 2:
                    pairs.append((x.a[0], x.a[1]))
                else:
                    pairs.append((None, x))
            if final is None:
                ctx.ob(R, fi.qual, False, "result is %s" % v[:200], fi)
                continue
            if not pairs:
                # no name passed the final test, which must be presence in the globals
                tests = [k for k, b in p.facts.items() if k.op == "in" and b is False and k.a[0].op == "elem"]
                if not tests and not F.get("builtin") and (isc or (
                        F.get("%s.__globals__" % fn) is False and (empty or F.get("%s.__closure__" % fn) is False))):
                    continue            # there is nothing to take values from
                if not tests:
                    ctx.ob(R, fi.qual, False, "nothing is found although names are referred to", fi)
                    continue
                key, glob = tests[-1].a
            else:
                key, val = pairs[0]
                lk = lookup(val) if val is not None else None
                if len(pairs) != 1 or lk is None or lk[1] is not key or key.op != "elem":
                    ctx.ob(R, fi.qual, False, "each name must be given with the value it has in the globals: %s" % v[-200:], fi)
                    continue
                glob = lk[0]
                if not any(k.op == "in" and b is True and k.a[0] is key and k.a[1] is glob for k, b in p.facts.items()):
                    # intersections of key sets are as good
                    pass
            names, globs = describe(F, key.a[0], glob, fn, rec)
            closure = bool(isf) and not empty and not (F.get("%s.__closure__" % fn) is False)
            self_ = False
            for k, b in p.facts.items():
                if b and k.op in ("is", "eq"):
                    s = [show(x) for x in k.a]
                    if (fn in s and any(lookup(x) for x in k.a)) or \
                            (any(x.endswith(".co_name") for x in s) and any(x.op == "elem" for x in k.a)):
                        self_ = True
            g = (["builtins"] if F.get("builtin") else []) + \
                (["closure(%s, builtin)" % rec] if closure else []) + (["globals"] if isf else [])
            base = ["code names"] if rec else ["co_names"]
            want = set(base)
            if closure:
                want.add("closure(%s, builtin)" % rec)
            nested = "nested[%s | %s](True, builtin)" % (base[0], ", ".join(g))
            if rec and not self_:
                want.add(nested)
            okn = set(names) == want or (self_ and set(names) == want | {nested}) or \
                (set(names) == want - {"closure(%s, builtin)" % rec} and False)
            gg = [x for i, x in enumerate(globs) if x not in globs[:i]]
            if F.get("%s.__globals__" % fn) is False:
                gg = [x for x in gg if x != "globals"]
                g = [x for x in g if x != "globals"]
                okn = okn or set(names) == {w.replace(", globals", "").replace("globals]", "]").replace("| ]", "| ]") for w in want}
            ctx.ob(R, fi.qual + " names", okn, "where %s: the names searched are %s, expected %s" % (
                sum_conds(F, fn), sorted(set(names)), sorted(want)), fi)
            ctx.ob(R, fi.qual + " values", gg == g, "where %s: values are taken from %s, expected %s (later ones win)" % (
                sum_conds(F, fn), gg, g), fi)
            # the search ends: what is being visited is known to the searches below it
            rcalls = [e for e in p.events if e.kind == "call" and is_call(e.t, *RECS)]
            i0 = next((i for i, e in enumerate(p.events) if e.kind == "setitem" and show(e.t) == "seen" and
                       show(e.x.a[0]) == "id(%s)" % fn), None)
            first = next((i for i, e in enumerate(p.events) if e in rcalls), None)
            end = not rcalls or (i0 is not None and i0 < first and
                                 all(arg(e.t, 3, "seen") is not None and show(arg(e.t, 3, "seen")) == "seen" for e in rcalls))
            ctx.ob("D03.end", fi.qual, end, "functions that refer to each other are searched for ever", fi)
        if not n:
            raise AnalysisError("no path in %s" % fi.qual)
        ctx.ob(R, fi.qual + " cases", {(True, True), (True, False), (False, True), (False, False)} <= kinds,
               "functions and code objects, with and without recursion, must be searched: %s" % sorted(kinds, key=str), fi)
    for fi in ctx.funcs(DT + "referredglobals"):
        for p in ctx.paths(fi, ("func", "recurse", "builtin")):
            v = show(p.val).replace("recurse=", "").replace("builtin=", "")
            ctx.ob(R, fi.qual, v in ("dill.detect.globalvars(func, recurse, builtin).keys()",
                                     "dill.detect._globalvars(func, recurse, builtin, {}).keys()"),
                   "must be the names of the global variables: %s" % v, fi)
    ctx.floor(R, 60)
    ctx.floor("D03.end", 20)


def sum_conds(F, fn):
    out = []
    for k, n in (("inspect.isfunction(%s)" % fn, "function"), ("inspect.iscode(%s)" % fn, "code"), ("recurse", "recurse"),
                 ("builtin", "builtin"), ("%s.__closure__" % fn, "closure")):
        if k in F:
            out.append(("" if F[k] else "not ") + n)
    return ", ".join(out)


@rule("D03")
def names_in_code(ctx):
    R = "D03.names"
    for fi in ctx.funcs(DT + "nestedglobals"):
        n = 0
        for p in ctx.run(fi, names=("func", "recurse"), track=lambda t: True, excev=True):
            if p.ctl == "raise":
                if not p.implicit:
                    ctx.ob(R, fi.qual, False, "fails with %s" % result(p), fi)
                continue
            F = facts(p)
            co = "dill.detect.code(func)"
            v = p.val
            none = F.get(co + " is None")
            if none is None:
                none = next((not b for k, b in F.items() if k in (co, "inspect.iscode(%s)" % co)), None)
            if none:
                ctx.ob(R, fi.qual + " no code", show(v) in ("[]", "()", "set()", "{}"), "no names without code: %s" % show(v), fi)
                continue
            n += 1
            listed = [e for e in p.events if e.kind == "call" and (is_call(e.t, "dis.get_instructions") or
                                                                   is_call(e.t, "dis.Bytecode"))]
            dis = [e for e in p.events if e.kind == "call" and is_call(e.t, "dis.dis")]
            exc = [show(e.t) for e in p.events if e.kind == "except"]
            ctx.ob(R, fi.qual + " disassembly", bool(exc) or len(dis) + len(listed) == 1 and show(tm.cargs((dis + listed)[0].t)[0]) == co,
                   "the code of the function must be disassembled", fi)
            for e in dis:
                d = tm.ckw(e.t).get("depth")
                ctx.ob(R, fi.qual + " depth", d is not None and show(d) == "0" or F.get("recurse") is True,
                       "the disassembly includes nested code although it was not asked for: %s" % show(e.t), fi, e.line)
            ins = {k: b for k, b in F.items() if "' in elem(" in k}
            for k in p.facts:
                if k.op == "in" and tm.is_const(k.a[0]) and "_GLOBAL" in str(tm.cval(k.a[0])):
                    ctx.ob(R, fi.qual + " instruction", k.a[1].op != "elem",
                           "the name of the instruction decides, not what its argument looks like: %s" % show(k), fi)
            got, rec = [], []
            for lp, x in sources(v):
                s = show(x)
                if is_call(x, DT + "nestedglobals"):
                    rec.append(s)
                else:
                    got.append((lp, x, s))
            if not (listed and exc):
                glob = next((b for k, b in ins.items() if k.startswith("'_GLOBAL' in elem(")), None)
                if glob is None:
                    gl = [next((b for k, b in ins.items() if k.startswith("'%s_GLOBAL' in elem(" % w)), None)
                          for w in ("LOAD", "STORE", "DELETE")]
                    glob = True if True in gl else None if None in gl[:2] else False
                    if glob is None and gl[0] is not None:
                        ctx.ob(R, fi.qual + " lines", False, "globals that are assigned are not recognised: %s" % sorted(ins), fi)
                        continue
                name_ = next((b for k, b in ins.items() if k.startswith("'LOAD_NAME' in elem(")), None)
                if glob is False and name_ is None:
                    ctx.ob(R, fi.qual + " class bodies", False, "names used in class bodies (LOAD_NAME) are not considered", fi)
                    continue
                if glob is None and name_ is None:
                    ctx.ob(R, fi.qual, False, "lines that refer to globals are not recognised: %s" % sorted(ins), fi)
                    continue
                want = bool(glob or name_)
                ctx.ob(R, fi.qual + " lines", bool(got) == want, "a line with %sglobal reference gives %s" % (
                    "a " if want else "no ", [s[:80] for _, _, s in got]), fi)
                new = next((not b if "<" in k else b for k, b in F.items() if "sys.hexversion" in k), None)
                if new is None:
                    new = next((b for k, b in F.items() if "sys.version_info" in k), None)
                for lp, x, s in got:
                    if listed and re.fullmatch(r"elem\(dis\.\w+\(.*\)\)\.argval", s):
                        continue            # the operand itself
                    ok = ".split('(')[-1].split(')')[0]" in s and s.startswith("elem(")
                    if new is not False:
                        ok = ok and ".replace('NULL + ', '')" in s and ".replace(' + NULL', '')" in s
                    ctx.ob(R, fi.qual + " text", ok, "the name is the text in the last parentheses, without the NULL marks: %s" % s, fi)
            # nested code
            consts = [k for k in p.facts if "co_consts" in show(k)]
            r = F.get("recurse")
            c = next((b for k, b in F.items() if k.startswith("inspect.iscode(elem(") and "co_consts" in k), None)
            t = next((b for k, b in F.items() if k.startswith("elem(") and "co_consts" in k and k.endswith("))")), None)
            need = r is True and c is True and t is not False
            if need:
                deep = [arg(x, 1, "recurse") for _, x in sources(v) if is_call(x, DT + "nestedglobals")]
                ctx.ob(R, fi.qual + " nested", len(rec) == 1 and "co_consts" in rec[0] and all(
                    d is None or show(d) in ("True", "recurse") for d in deep),
                       "names used by nested code must be included: %s" % rec, fi)
            elif not consts and r is not False:
                ctx.ob(R, fi.qual + " nested", False, "nested code is not considered", fi)
            ctx.ob(R, fi.qual + " errors", all("IndexError" in x for x in exc), "errors are hidden: %s" % exc, fi)
        if not n:
            raise AnalysisError("no path in nestedglobals")
    for fi in ctx.funcs(DT + "nestedcode"):
        for p in ctx.paths(fi, ("func", "recurse")):
            if p.ctl == "raise":
                continue
            F = facts(p)
            co = "dill.detect.code(func)"
            isc = F.get("inspect.iscode(%s)" % co)
            if isc is None:
                isc = next((not b for k, b in F.items() if k == co + " is None"), None)
            if isc is False:
                ctx.ob("D03.nested", fi.qual + " no code", show(p.val) in ("[]",), "must be empty: %s" % show(p.val), fi)
                continue
            el = "elem(%s.co_consts)" % co
            cc = "dill.detect.code(%s)" % el
            if F.get(el + " is None"):
                want = set()
            else:
                b = F.get(cc)
                if b is None:
                    b = next((not v for k, v in F.items() if k == cc + " is None"), None)
                if b is None:
                    b = F.get("inspect.iscode(%s)" % el)
                if b is None:
                    ctx.ob("D03.nested", fi.qual, False, "constants that are code are not told apart: %s" % sorted(F), fi)
                    continue
                want = {"code"} if b else set()
                if b and F.get("recurse"):
                    want.add("below")
                if b and F.get("recurse") is None:
                    ctx.ob("D03.nested", fi.qual, False, "the recurse option is not considered", fi)
                    continue
            got = set()
            for lp, x in sources(p.val):
                s = show(x)
                if s in (cc, el):
                    got.add("code")
                elif is_call(x, DT + "nestedcode") and show(arg(x, 0, "func")) in (cc, el):
                    r = arg(x, 1, "recurse")
                    if r is None or show(r) in ("True", "recurse"):
                        got.add("below")
                    else:
                        got.add("shallow")
                else:
                    got.add(s)
            ctx.ob("D03.nested", fi.qual, got == want, "the nested code found is %s, expected %s where %s" % (
                sorted(got), sorted(want), sorted(F)), fi)
    ctx.floor("D03.nested", 4)
    for fi in ctx.funcs(DT + "code"):
        for p in ctx.paths(fi, ("func",)):
            if p.ctl == "raise":
                continue
            F = facts(p)
            # follow the steps the path established
            cur, steps = "func", 0
            for test, step in (("ismethod", "__func__"), ("isfunction", "__code__"), ("istraceback", "tb_frame"), ("isframe", "f_code")):
                b = F.get("inspect.%s(%s)" % (test, cur))
                if b is None:
                    steps = None if steps is None else steps
                if b:
                    cur = cur + "." + step
            isc = F.get("inspect.iscode(%s)" % cur)
            v = show(p.val)
            known = [k for k in F if k.startswith("inspect.is")]
            if isc is False:
                ok = v == "None" and len(known) >= 5
            elif isc:
                ok = v == cur
            else:
                # a path that stops early must have found a code object
                ok = v == cur and cur.endswith(("__code__", "f_code"))
            ctx.ob("D03.code", fi.qual, ok, "the code of a method, function, traceback, frame or code object is reached "
                   "by __func__, __code__, tb_frame, f_code: %s where %s" % (v, [k for k in F if F[k]]), fi)
    ctx.floor("D03.code", 6)
    for fi in ctx.funcs(DT + "varnames"):
        for p in ctx.paths(fi, ("func",)):
            F = facts(p)
            v = show(p.val)
            co = "dill.detect.code(func)"
            b = F.get("inspect.iscode(%s)" % co)
            if b is None:
                b = next((not x for k, x in F.items() if k == co + " is None"), None)
            ctx.ob("D03.code", fi.qual, b is not None and v == ("(%s.co_varnames, %s.co_cellvars)" % (co, co) if b else "()"),
                   "must be the local variables and those used by nested functions: %s" % v, fi)


@rule("D03")
def free(ctx):
    R = "D03.freevars"
    n = 0
    for fi in ctx.funcs(DT + "freevars"):
        for f2, p in run_with_closures(ctx, fi, names=("func",), track=lambda t: True, excev=True):
            if p.ctl == "raise":
                if not p.implicit:
                    ctx.ob(R, f2.qual, False, "fails with %s" % result(p), f2)
                continue
            F = facts(p)
            meth = F.get("inspect.ismethod(func)")
            fn = "func.__func__" if meth else "func"
            isf = F.get("inspect.isfunction(%s)" % fn)
            ys = [e for e in p.events if e.kind == "yield"]
            exc = [show(e.t) for e in p.events if e.kind == "except"]
            if f2 is fi:
                if isf is False:
                    ctx.ob(R, fi.qual + " other", show(p.val) == "{}", "must be empty: %s" % show(p.val), fi)
                    continue
                if isf is None:
                    ctx.ob(R, fi.qual, False, "whether it is a function is not considered", fi)
                    continue
                v = show(p.val)
                if "fn(" in v:
                    continue
                pr = [x for _, x in sources(p.val)]
                lp = [l_ for l_, x in sources(p.val)]
                n += check_free(ctx, R, f2, p, pr, lp, exc, fn)
            else:
                pr = [e.t for e in ys]
                n += check_free(ctx, R, f2, p, pr, None, exc, None)
    if not n:
        raise AnalysisError("freevars not understood")


def check_free(ctx, R, fi, p, pr, lp, exc, fn):
    if not pr:
        ok = (exc and all("ValueError" in x for x in exc)) or any("__closure__" in k for k in facts(p))
        ctx.ob(R, fi.qual + " empty cells", bool(ok), "only empty cells may be skipped", fi)
        return 0
    for x in pr:
        s = show(x)
        if x.op == "kv":
            k, v = x.a
        elif x.op == "tuple" and len(x.a) == 2:
            k, v = x.a
        else:
            ctx.ob(R, fi.qual, False, "each name must come with the contents of its cell: %s" % s, fi)
            continue
        sk, sv = show(k), show(v)
        base = sk[:-3] if sk.endswith("[0]") else None
        z = base and ("__code__.co_freevars, " in base or "co_freevars" in base) and base.startswith("elem(zip(")
        ok = (z and sv == base + "[1].cell_contents") or (
            sk.startswith("elem(") and sk.endswith("co_freevars)") and sv.endswith("].cell_contents"))
        if not ok and k.op == "elem" and sk.endswith("co_freevars)"):
            ok = sv.startswith("elem(") and sv.endswith("__closure__).cell_contents")
        ctx.ob(R, fi.qual, bool(ok), "each free variable must be paired with the contents of its own cell: %s" % s, fi)
    return 1
