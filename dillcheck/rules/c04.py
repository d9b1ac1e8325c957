"""C04: code objects."""
import ast

from .. import terms as tm
from ..lib import OneOf, SKIP, reduction, result, show
from ..program import AnalysisError
from . import rule

HEAD7 = "argcount kwonlyargcount nlocals stacksize flags code consts names varnames filename name"
HEAD8 = "argcount posonlyargcount kwonlyargcount nlocals stacksize flags code consts names varnames filename name"
LAYOUT = {
    (3, 11, "a"): HEAD8 + " qualname firstlineno linetable endlinetable columntable exceptiontable freevars cellvars",
    (3, 11): HEAD8 + " qualname firstlineno linetable exceptiontable freevars cellvars",
    (3, 11, "p"): HEAD8 + " qualname firstlineno linetable freevars cellvars",
    (3, 10): HEAD8 + " firstlineno linetable freevars cellvars",
    (3, 8): HEAD8 + " firstlineno lnotab freevars cellvars",
    (3, 7): HEAD7 + " firstlineno lnotab freevars cellvars",
}
LAYOUT = {k: v.split() for k, v in LAYOUT.items()}
ATTR = {(3, 11, "a"): "co_endlinetable", (3, 11): "co_exceptiontable", (3, 11, "p"): "co_qualname",
        (3, 10): "co_linetable", (3, 8): "co_posonlyargcount", (3, 7): "co_kwonlyargcount"}
ORDER = [(3, 11, "a"), (3, 11), (3, 11, "p"), (3, 10), (3, 8), (3, 7)]
BYTES = {"code", "lnotab", "linetable", "endlinetable", "columntable", "exceptiontable"}
DEFAULTS = {"posonlyargcount": ("0",), "lnotab": ("LNOTAB",), "linetable": ("b''",),
            "qualname": ("fields['name']", "m.name"), "exceptiontable": ("b''",),
            "endlinetable": ("None",), "columntable": ("None",)}


@rule("C04")
def save(ctx):
    for fi in ctx.funcs("dill._dill.save_code"):
        ps = ctx.paths(fi, ("pickler", "obj"))

        def fields(p):
            for e in p.events:
                r = reduction(e)
                if r and show(r["func"]) == "dill._dill._create_code":
                    if r["args"].op != "tuple":
                        return [show(r["args"])]
                    return [show(x).replace("getattr(obj, 'co_lnotab', b'')", "obj.co_lnotab")
                            for x in r["args"].a] + ["obj=" + show(r["obj"])]
            return ["nothing stored"]

        def spec(A):
            have = {}
            for v in ORDER[:-1]:
                have[v] = A("hasattr(obj, '%s')" % ATTR[v])
            chain = [(3, 11, "a"), (3, 11), (3, 11, "p"), (3, 10), (3, 8)]
            on = [have[v] for v in chain]
            if on != sorted(on):            # newer attributes imply the older ones
                return SKIP
            v = next((v for v in chain if have[v]), (3, 7))
            out = ["obj.co_" + n for n in LAYOUT[v]] + ["obj=obj"]
            return (["obj.co_lnotab"] if v[1] >= 10 else []) + out
        ctx.table("C04.save", fi, ps, fields, spec)


def positions(term, end):
    """[(index, encoded)] of the positional arguments of CodeType (taken from `end` arguments), or None"""
    out = []
    for x in tm.cargs(term):
        enc = False
        if x.op == "star":
            s = x.a[0]
            if s.op != "sub" or show(s.a[0]) != "*args" or s.a[1].op != "slice":
                return None
            lo, hi = s.a[1].a[0], s.a[1].a[1]
            if not tm.is_const(hi):
                return None
            lo = tm.cval(lo) or 0
            hi = end if tm.cval(hi) is None else tm.cval(hi)
            out += [(i, "plain") for i in range(lo, hi)]
            continue
        if x.op == "each":
            loop, body = x.a
            txt = show(loop)
            src = loop.a[0]
            if src.op != "sub" or src.a[1].op != "slice":
                return None
            lo, hi = tm.cval(src.a[1].a[0]) or 0, tm.cval(src.a[1].a[1])
            b = show(body)
            el = "elem(%s)" % show(src)
            if b not in (el, el + ".encode()"):
                return None
            out += [(i, ("each", b.endswith(".encode()"), el)) for i in range(lo, hi)]
            continue
        if x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] == "encode" and not tm.cargs(x):
            enc, x = True, x.a[0].a[0]
        if x.op == "sub" and show(x.a[0]) == "*args" and tm.is_const(x.a[1]):
            out.append((tm.cval(x.a[1]), ("one", enc, show(x))))
        else:
            return None
    return out


@rule("C04")
def create(ctx):
    for fi in ctx.funcs("dill._dill._create_code"):
        ps = ctx.paths(fi, (), opaque=frozenset(["dill._dill.match.case", "dill._dill.match.fields"]))
        n = 0
        seen = set()
        for p in ps:
            if p.ctl == "raise" and p.implicit:
                continue
            n += 1
            facts = {show(k): v for k, v in p.facts.items()}
            shift = 0 if facts.get("isinstance(*args[0], int)", True) else 1
            lay = None
            ver = None
            notver = set()
            for k, v in p.facts.items():
                s = show(k)
                if ".case(" in s and v:
                    t = tm.cargs(k)[0]
                    lay = tuple(tm.cval(x) for x in t.a)
                elif "dill._dill.version" in s:
                    if s.endswith("== dill._dill.version"):
                        val = ast.literal_eval(s.rpartition(" == ")[0])
                        if v:
                            ver = val
                        else:
                            notver.add(val)
            line = p.events[-1].line if p.events else fi.node.lineno
            if lay is None:
                ctx.ob("C04.layouts", fi.qual, p.ctl == "raise" and "UnpicklingError" in result(p),
                       "unknown layouts must raise UnpicklingError; found " + result(p), fi, line)
                continue
            seen.add(len(lay))
            names = {15: [(3, 7)], 16: [(3, 10), (3, 8)], 17: [(3, 11, "p")], 18: [(3, 11)],
                     20: [(3, 11, "a")]}.get(len(lay))
            okl = names is not None and any(
                all(a == b or (a == "LNOTAB_OR_LINETABLE" and b in ("lnotab", "linetable"))
                    for a, b in zip(lay, LAYOUT[v])) for v in names)
            ctx.ob("C04.layouts", "%s (%d fields)" % (fi.qual, len(lay)), okl,
                   "the fields of the %d-field layout are named %s" % (len(lay), " ".join(lay)), fi, line)
            if not okl or p.ctl != "ret":
                if okl:
                    ctx.ob("C04.create", fi.qual, False, "known layout of %d fields: %s" % (
                        len(lay), result(p)), fi, line)
                continue
            if p.val.op != "call" or show(p.val.a[0]) != "types.CodeType":
                ctx.ob("C04.create", fi.qual, False, "does not return a code object: " + result(p), fi, line)
                continue
            pos = positions(p.val, len(lay) + shift)
            if ver in names and pos is not None:
                want = LAYOUT[ver]
                idx = [i - shift for i, _ in pos]
                ok = idx == list(range(len(want)))
                ctx.ob("C04.create", "%s (%d fields, direct)" % (fi.qual, len(lay)), ok,
                       "the %d stored fields are passed as %s" % (len(want), idx), fi, line)
                if ok:
                    for (i, kind), nme in zip(pos, want):
                        if nme in BYTES:
                            good = kind != "plain" and \
                                facts.get("hasattr(%s, 'encode')" % kind[2]) is kind[1]
                            msg = "%s is not encoded exactly if it is text" % nme
                        else:
                            good = kind == "plain" or kind[1] is False
                            msg = "%s must be passed unchanged" % nme
                        ctx.ob("C04.bytes", "%s (%d fields) %s" % (fi.qual, len(lay), nme), good,
                               msg, fi, line)
                continue
            slow_path(ctx, fi, p, facts, lay, names, shift, line)
        for k in (15, 16, 17, 18, 20):
            ctx.ob("C04.layouts", "%s (%d fields) is handled" % (fi.qual, k), k in seen,
                   "no path accepts the layout with %d fields" % k, fi)


def slow_path(ctx, fi, p, facts, lay, names, shift, line):
    """a layout that is not the running interpreter's: fields completed by name"""
    name = "%s (%d fields, completed)" % (fi.qual, len(lay))
    txt = show(p.val)
    m = "enter(dill._dill.match(*args%s))" % ("[slice(1, None, None)]" if shift else "")
    F = m + ".fields"
    el = F + "[elem(dill._dill.CODE_PARAMS)]"
    want = "types.CodeType(each(loop(dill._dill.CODE_PARAMS), %s))"
    isenc = txt == want % (el + ".encode()")
    ctx.ob("C04.create", name, isenc or txt == want % el,
           "the fields of the running version are not taken by name: " + txt, fi, line)
    enc = facts.get("elem(dill._dill.CODE_PARAMS) in dill._dill.ENCODE_PARAMS")
    has = facts.get("hasattr(%s, 'encode')" % el)
    ctx.ob("C04.bytes", name, (enc is True and has is True) if isenc else
           not (enc is True and has is True),
           "byte fields stored as text must be encoded, others passed unchanged", fi, line)
    have = {n: "m." + n for n in lay}
    lnotab = "*args[0]" if shift else "b''"

    def nm(t):
        s = show(t).replace(F, "fields").replace(m + ".", "m.")
        return "LNOTAB" if s == lnotab and s != "b''" else s
    for e in p.events:
        if e.kind in ("mut", "setitem", "delitem") and show(e.t) == F:
            a = e.x.a
            if e.kind == "mut" and tm.is_const(a[0]) and tm.cval(a[0]) == "setdefault":
                k, v = tm.cval(a[1]), nm(a[2])
                have.setdefault(k, v)
            elif e.kind == "setitem":
                have[tm.cval(a[0])] = nm(a[1])
            else:
                have["?"] = show(e.x)
        elif e.kind == "call" and show(e.t).startswith(F + ".setdefault("):
            a = tm.cargs(e.t)
            have.setdefault(tm.cval(a[0]), nm(a[1]))
    ge310 = facts.get("dill._dill.version < (3, 10)")
    bad = []
    need = set()
    for v in ORDER:
        need |= set(LAYOUT[v])
    for n in sorted(need):
        got = have.get(n)
        if n in lay:
            ok = got == "m." + n
        elif len(lay) == 16 and n in ("linetable", "lnotab"):
            src = "m.LNOTAB_OR_LINETABLE"
            if n == "linetable":
                ok = got == src or (ge310 is not False and got == "b''")
            elif ge310 is False:
                ok = got in (src, "LNOTAB", "b''")
            elif shift and facts.get("*args[0]") is not False:
                # stored with the table older interpreters read
                ok = got == "LNOTAB"
            else:
                ok = got == src
            got = str(got)
        elif n == "lnotab":
            ok = got == ("LNOTAB" if shift else "b''")
        else:
            ok = got in DEFAULTS[n]
        if not ok:
            bad.append("%s is %s" % (n, got))
    if have.get("?"):
        bad.append("unexpected change " + have["?"])
    ctx.ob("C04.defaults", name, not bad, "after completing the fields: " + ", ".join(bad), fi, line)


@rule("C04")
def tables(ctx):
    m = ctx.prog.modules["dill._dill"]
    tree = m.tree
    rows = None
    for st in tree.body:
        if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "ALL_CODE_PARAMS"
                                              for t in st.targets):
            try:
                rows = ast.literal_eval(st.value)
            except ValueError:
                return
            line = st.lineno
    if rows is None:
        return
    class F:
        module, node = "dill._dill", type("n", (), {"lineno": line})
    got = [(tuple(r[0]), r[1], tuple(r[2].split())) for r in rows]
    seen = [g[0] for g in got]
    for v in ORDER:
        row = next((g for g in got if g[0] == v), None)
        ctx.ob("C04.table", "ALL_CODE_PARAMS %s" % (v,), row is not None and row[1] == ATTR[v] and
               list(row[2]) == LAYOUT[v],
               "constructor layout of version %s is %s" % (v, row), F, line)
    idx = [seen.index(v) for v in ORDER if v in seen]
    ctx.ob("C04.table", "ALL_CODE_PARAMS order", idx == sorted(idx),
           "versions must be tried newest attribute first; order is %s" % (seen,), F, line)
    for st in ast.walk(tree):
        if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "ENCODE_PARAMS"
                                              for t in st.targets):
            names = {c.value for c in ast.walk(st.value)
                     if isinstance(c, ast.Constant) and isinstance(c.value, str)}
            names = {w for s in names for w in s.split()}
            ctx.ob("C04.table", "ENCODE_PARAMS", names == BYTES,
                   "byte fields are %s" % sorted(names), F, st.lineno)


@rule("C04")
def matcher(ctx):
    C = "dill._dill.match."
    for fi in ctx.funcs(C + "case"):
        ps = ctx.paths(fi, ("self", "args"), self_type="dill._dill.match")
        from ..lib import attrs
        ctx.table("C04.match", fi, ps, lambda p: (result(p), attrs(p).get("args", "-")),
                  lambda A: ("ret True", "args") if A("len(args) == len(self.value)")
                  else OneOf(("ret False", "-")))
    for fi in ctx.funcs(C + "fields"):
        ps = ctx.paths(fi, ("self",), self_type="dill._dill.match")
        D = "ret {**zip(self.args, self.value)}"
        ctx.table("C04.match", fi, ps, result,
                  lambda A: OneOf(D) if A("self._fields is None") else OneOf("ret self._fields", D))
    for fi in ctx.funcs(C + "__getattr__"):
        ps = ctx.paths(fi, ("self", "item"), self_type="dill._dill.match",
                       opaque=frozenset([C + "fields"]))
        ctx.table("C04.match", fi, ps, result, lambda A: "ret self.fields[item]")
