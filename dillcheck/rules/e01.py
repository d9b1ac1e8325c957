"""E01-E06: source code inspection (dill.source)."""
import ast
import itertools
import re

from .. import terms as tm
from ..lib import SKIP, OneOf, calls, exc_name, facts, no_trace, result, run_with_closures, show, sweep
from ..program import AnalysisError
from . import rule
from .d03 import arg, is_call

S = "dill.source."
G = S + "_getimport"


# ------------------------------------------------------------------ text built from pieces
def pieces(t):
    """a text as the list of the pieces it is concatenated from: constants and '{term}'"""
    if tm.is_const(t) and isinstance(tm.cval(t), str):
        return [tm.cval(t)]
    if t.op in ("fmt", "add"):
        out = []
        for x in t.a:
            out += pieces(x)
        return out
    if t.op == "fv" and t.a[0] in ("", "s"):
        return pieces(t.a[1])
    if is_call(t, "builtins.str") and len(t.a[1].a) == 1:
        return pieces(t.a[1].a[0])
    return [t]


def text(t):
    out = ""
    for x in pieces(t):
        out += "{%s}" % show(x) if isinstance(x, tm.T) else x
    return out


def put(s):
    """the text of one parameter"""
    return "{%s}" % s


# ------------------------------------------------------------------ E01: indentation
class Unknown(Exception):
    pass


WHITE = {" ", "\t", "\f"}
PATTERN = re.compile(r"^\^?\[(?: |\\t|\t|\\f|\f|\\v)+\]\*$")


def leading(t):
    """x if the term is the number of leading blanks of x"""
    if t.op == "binop" and t.a[0] == "Sub" and is_call(t.a[1], "builtins.len") and is_call(t.a[2], "builtins.len"):
        x, y = t.a[1].a[1].a[0], t.a[2].a[1].a[0]
        if y.op == "call" and y.a[0].op == "attr" and y.a[0].a[1] == "lstrip" and y.a[0].a[0] is x and len(y.a[1].a) == 1 \
                and tm.is_const(y.a[1].a[0]):
            w = tm.cval(y.a[1].a[0])
            if isinstance(w, str) and " " in w and "\t" in w and set(w) <= WHITE:
                return x
    m = None
    if is_call(t, "builtins.len") and t.a[1].a[0].op == "call":
        m = t.a[1].a[0]
        if m.a[0].op == "attr" and m.a[0].a[1] == "group" and all(tm.is_const(x) and tm.cval(x) == 0 for x in m.a[1].a):
            m = m.a[0].a[0]
        else:
            m = None
    elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "end" and not t.a[1].a:
        m = t.a[0].a[0]
    if m is not None and m.op == "call" and m.a[0].op == "attr" and m.a[0].a[1] == "match":
        pat, x = m.a[0].a[0], m.a[1].a[0]
        if is_call(pat, "re.compile"):
            pat = pat.a[1].a[0]
        if tm.is_const(pat) and PATTERN.match(str(tm.cval(pat))):
            return x
    if is_call(m, "re.match") if m is not None else False:
        pat, x = m.a[1].a[0], m.a[1].a[1]
        if tm.is_const(pat) and PATTERN.match(str(tm.cval(pat))):
            return x
    return None


def value(t, env):
    """the term under an assignment of small numbers to its unknowns"""
    if tm.is_const(t):
        return tm.cval(t)
    x = leading(t)
    if x is not None:
        k = "lead " + show(x)
        if k not in env:
            raise Unknown(show(t))
        return env[k]
    if show(t) in env:
        return env[show(t)]
    if t.op == "cmp" or t.op in ("lt", "le", "eq", "is", "gt", "ge", "ne"):
        op, a, b = (t.op, t.a[0], t.a[1]) if t.op != "cmp" else (t.a[0], t.a[1], t.a[2])
        a, b = value(a, env), value(b, env)
        op = str(op).lower()
        if op == "is":
            return a is b
        if op == "eq":
            return a == b
        if op == "ne":
            return a != b
        if a is None or b is None:
            raise ArithmeticError
        return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "lte": a <= b, "gte": a >= b}[op]
    if t.op == "call" and t.a[0].op == "g" and t.a[0].a[0] in ("builtins.min", "builtins.max"):
        vs = [value(x, env) for x in t.a[1].a]
        if None in vs:
            raise ArithmeticError
        return min(vs) if t.a[0].a[0] == "builtins.min" else max(vs)
    if t.op in ("min", "max"):
        vs = [value(x, env) for x in t.a]
        return min(vs) if t.op == "min" else max(vs)
    if t.op == "not":
        return not value(t.a[0], env)
    if t.op == "bool":
        return bool(value(t.a[0], env))
    if t.op == "binop" and t.a[0] in ("Sub", "Add"):
        a, b = value(t.a[1], env), value(t.a[2], env)
        return a - b if t.a[0] == "Sub" else a + b
    if t.op == "add" and len(t.a) == 2:
        return value(t.a[0], env) + value(t.a[1], env)
    if t.op == "neg":
        return -value(t.a[0], env)
    raise Unknown(show(t))


def holds(p, env, fixed):
    """may the path be taken under the assignment? (conditions that don't depend on it are left out)"""
    for k, v in p.facts.items():
        s = show(k)
        if s in fixed:
            if fixed[s] != v:
                return False
            continue
        try:
            if bool(value(k, env)) != v:
                return False
        except ArithmeticError:
            return False
        except Unknown:
            raise
    return True


def grid(*names):
    """assignments that realise every order of the blanks asked for, of the first and of the current line, and of 0"""
    for sp in (None, -1, 0, 1, 2, 3, 4):
        for vs in itertools.product((0, 1, 2, 3), repeat=len(names)):
            env = {"lead " + n: v for n, v in zip(names, vs)}
            env["spaces"] = sp
            yield env


def asked(env, first):
    sp, b = env["spaces"], env["lead " + first]
    return b if sp is None or sp > b or sp < 0 else sp


def say(env):
    return ", ".join("%s %s" % (k.replace("lead ", "blanks of "), v) for k, v in sorted(env.items()))


@rule("E01")
def outdent_lines(ctx):
    R = "E01.lines"
    for fi in ctx.funcs(S + "_outdent"):
        ps = ctx.run(fi, names=("lines", "spaces", "all"), keep=lambda k, t, x=None: k in ("setitem", "mut", "delitem", "call"),
                     track=lambda t: True)
        seen = set()
        for p in ps:
            if p.ctl == "raise":
                if not p.implicit:
                    ctx.ob(R, fi.qual, False, "fails: %s" % result(p), fi)
                continue
            F = facts(p)
            whole = F.get("all")
            line = p.events[-1].line if p.events else 0
            fresh = p.val.op == "list" and len(p.val.a) == 1
            ctx.ob(R, fi.qual + " result", show(p.val) == "lines" or fresh, "returns %s" % show(p.val), fi, line)
            sets = [e for e in p.events if e.kind == "setitem"]
            other = [e for e in p.events if e.kind in ("mut", "delitem")]
            ctx.ob(R, fi.qual + " kept", not other, "lines are removed or added: %s" % [show(e.t) for e in other], fi, line)
            new = []
            for e in sets:
                if show(e.t) != "lines":
                    ctx.ob(R, fi.qual, False, "writes into %s" % show(e.t), fi, e.line)
                    continue
                new.append((e.x.a[0], e.x.a[1], bool(e.loops)))
            if fresh and not sets:
                x = p.val.a[0]
                if x.op == "each":
                    new.append((x.a[1], x.a[1], True))
            if whole is True:
                ctx.ob(R, fi.qual + " all", not new or all(lp for _, _, lp in new), "not every line is outdented", fi, line)
            elif whole is False:
                ctx.ob(R, fi.qual + " first", all(
                    not lp and show(i) == "0" or show(i) == "idx(lines[slice(None, 1, None)])" for i, _, lp in new),
                       "lines after the first are outdented although all is false", fi, line)
            cut = []
            for i, v, lp in new:
                x, n = sliced(v)
                if x is None:
                    ctx.ob(R, fi.qual, False, "a line becomes %s: more than its beginning is changed" % show(v), fi, line)
                    continue
                ok = show(x) == "lines[%s]" % show(i) or show(x) == "elem(lines)" or i.op == "idx" and show(x) == "elem(%s)" % show(i.a[0]) \
                    and re.match(r"^lines(\[slice\(None, (%s), None\)\])?$" % ("1" if whole is False else r"len\(lines\)|None"), show(i.a[0]))
                ctx.ob(R, fi.qual + " line", ok, "line %s becomes a part of %s" % (show(i), show(x)), fi, line)
                cut.append((show(x), n))
            first = "lines[0]"
            names = sorted({first} | {x for x, _ in cut})
            bad = None
            try:
                for env in grid(*names):
                    if not holds(p, env, {"all": whole}):
                        continue
                    want = asked(env, first)
                    if not cut:
                        seen.add((whole, "untouched"))
                        if min(want, env["lead " + first]) and whole is not None:
                            bad = "no line is changed where %d blanks must go (%s)" % (want, say(env))
                    for x, n in cut:
                        seen.add((whole, "cut"))
                        w = min(want, env["lead " + x])
                        got = value(n, env)
                        if got != w:
                            bad = "%s characters are removed from a line where %d must be (%s)" % (got, w, say(env))
                    if bad:
                        break
            except Unknown as e:
                bad = "the number of characters removed depends on %s, which isn't the number of blanks a line starts with" % e
            except ArithmeticError:
                bad = "None is used as a number"
            ctx.ob("E01.amount", fi.qual, bad is None, bad or "", fi, line)
        for w in (True, False):
            ctx.ob("E01.covered", "%s all=%s" % (fi.qual, w), (w, "cut") in seen or (None, "cut") in seen,
                   "no line is outdented with all=%s" % w, fi)


def sliced(v):
    """x, n of x[n:]"""
    if v.op == "sub" and v.a[1].op in ("slice",):
        lo, hi, st = v.a[1].a
        if show(hi) == "None" and show(st) == "None":
            return v.a[0], tm.const(0) if show(lo) == "None" else lo
    return None, None


@rule("E01")
def outdent_code(ctx):
    R = "E01.code"
    for fi in ctx.funcs(S + "outdent"):
        for p in ctx.run(fi, names=("code", "spaces", "all"), keep=no_trace, track=lambda t: True):
            if p.ctl == "raise":
                if not p.implicit:
                    ctx.ob(R, fi.qual, False, "fails: %s" % result(p), fi)
                continue
            F = facts(p)
            whole = F.get("all")
            line = p.events[-1].line if p.events else 0
            t, mode = p.val, None
            n = None
            if t.op == "join" and show(t.a[0]) == "'\\n'" and is_call(t.a[1], S + "_outdent"):
                c = t.a[1]
                n, w = arg(c, 1, "spaces"), arg(c, 2, "all")
                src = arg(c, 0, "lines")
                ctx.ob(R, fi.qual + " lines", src is not None and show(src) == "code.split('\\n')",
                       "the lines outdented are %s: joined with newlines they aren't the code" % (src and show(src)), fi, line)
                if w is None or show(w) == "True" or (show(w) == "all" and whole is True):
                    mode = True
                elif show(w) == "False" or (show(w) == "all" and whole is False):
                    mode = False
                elif show(w) == "all":
                    mode = whole = None
                n = tm.const(None) if n is None else n
                first = "code"
            else:
                x, n = sliced(t)
                if x is not None and show(x) == "code":
                    mode = False
            if n is None:
                ctx.ob(R, fi.qual, False, "returns %s" % show(t), fi, line)
                continue
            ctx.ob(R, fi.qual + " all", mode is whole, "with all=%s the lines outdented are %s" % (
                whole, {True: "all", False: "the first one", None: "as asked"}[mode]), fi, line)
            bad = None
            try:
                for env in grid("code"):
                    if not holds(p, env, {"all": whole}):
                        continue
                    got, want = value(n, env), asked(env, "code")
                    if t.op == "join":      # clipped by _outdent
                        b = env["lead code"]
                        got = b if got is None or got > b or got < 0 else got
                    if got != want:
                        bad = "%s characters are removed where %d must be (%s)" % (got, want, say(env))
                        break
            except Unknown as e:
                bad = "the number of characters removed depends on %s, which isn't the number of blanks a line starts with" % e
            except ArithmeticError:
                bad = "None is used as a number"
            ctx.ob("E01.amount", fi.qual, bad is None, bad or "", fi, line)


def rebuilt(v, L, line):
    """a join of lines that were all built anew -> the changes this makes, like stores into the lines"""
    if v.op != "join" or show(v.a[0]) != "'\\n'" or v.a[1].op != "list" or not v.a[1].a:
        return None
    each, *rest = v.a[1].a
    if each.op != "each" or show(each.a[0]) != "loop(%s)" % L:
        return None
    out = []
    if show(each.a[1]) != "elem(%s)" % L:
        out.append((tm.mk("idx", each.a[0].a[0]), each.a[1], line))
    for m in rest:
        if m.op != "mut" or show(m.a[0]) != "'setitem'":
            return None
        out.append((m.a[1], m.a[2], line))
    return out


@rule("E01")
def indent_code(ctx):
    R = "E01.indent"
    for fi in ctx.funcs(S + "indent"):
        kinds = set()
        for p in ctx.run(fi, names=("code", "spaces"), keep=lambda k, t, x=None: k in ("setitem", "mut", "delitem"),
                         track=lambda t: True):
            if p.ctl == "raise":
                if not p.implicit:
                    ctx.ob(R, fi.qual, False, "fails: %s" % result(p), fi)
                continue
            F = facts(p)
            line = p.events[-1].line if p.events else 0
            L = "code.split('\\n')"
            sets = [(e.x.a[0], e.x.a[1], e.line) if e.kind == "setitem" and show(e.t) == L else (None, e.t, e.line) for e in p.events]
            made = None
            if show(p.val) != "join('\\n', %s)" % L:
                made = rebuilt(p.val, L, line)
                ctx.ob(R, fi.qual + " result", made is not None, "returns %s" % show(p.val), fi, line)
                sets = [x for x in sets if x[0] is not None] + (made or [])
            number = next((v for k, v in F.items() if k.startswith("isinstance(spaces, ")), None)
            if not any(i is not None and show(i) != "-1" for i, _, _ in sets):
                ctx.ob(R, fi.qual + " which", not any(v is False and re.match(r"^inspect\.indentsize\(.*\) < inspect\.indentsize\(code\)$", k)
                                                      for k, v in F.items()), "a line isn't indented", fi, line)
            pre = {True: ("binop('Mult', spaces, ' ')", "binop('Mult', ' ', spaces)"), False: ("spaces",)}.get(number, ())
            for i, v, at in sets:
                if i is None:
                    ctx.ob(R, fi.qual, False, "changes %s" % show(v), fi, at)
                    continue
                i = show(i)
                if i == "-1":
                    blank = any(b and re.match(r"^.*\[-1\]\.(strip\(\) == ''|isspace\(\))$", k) or
                                (not b and re.match(r"^.*\[-1\]\.strip\(\)$", k)) for k, b in F.items())
                    ctx.ob(R, fi.qual + " last", show(v) == "''" and blank, "the last line becomes %s" % show(v), fi, at)
                    kinds.add("last")
                    continue
                old = "elem(%s)" % L if i == "idx(%s)" % L else "%s[%s]" % (L, i)
                ok = v.op == "add" and len(v.a) == 2 and show(v.a[0]) in pre and show(v.a[1]) in (old, "%s[%s]" % (L, i))
                ctx.ob(R, fi.qual + " line", ok, "a line becomes %s, not the line after the blanks asked for" % show(v), fi, at)
                less = ["inspect.indentsize(%s) < inspect.indentsize(code)" % o for o in (old, "%s[%s]" % (L, i))]
                ctx.ob(R, fi.qual + " which", any(F.get(x) is False for x in less), "a line that is indented less than the first is indented too", fi,
                       at)
                kinds.add("line")
        for k in ("line", "last"):
            ctx.ob(R, "%s %s" % (fi.qual, k), k in kinds, "no %s is ever indented" % k, fi)


# ------------------------------------------------------------------ E02: cached lines are not altered
CACHED = ("linecache.getlines", "linecache.updatecache")
FIND = S + "findsource"


def cached(t, src):
    """is the term a list held by linecache?"""
    if is_call(t, *CACHED) or t.op == "sub" and t.a[0].op == "attr" and show(t.a[0]) == "linecache.cache":
        return True
    if t.op == "sub" and show(t.a[1]) == "0" and is_call(t.a[0], FIND) and FIND in src:
        return True
    if t.op == "sub" and show(t.a[1]) == "0" and is_call(t.a[0], *(src - {FIND})):
        return True
    if t.op in ("ite", "or", "and"):
        return any(isinstance(x, tm.T) and cached(x, src) for x in t.a)
    return False


def exposes(t, src, deep=True):
    """cached lists a value consists of or contains"""
    if cached(t, src):
        return [t]
    out = []
    if t.op in ("tuple", "list", "dict", "set", "kv", "each") and deep:
        for x in t.a:
            if isinstance(x, tm.T):
                out += exposes(x, src)
    return out


MUTATORS = ("append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "__setitem__", "__delitem__", "__iadd__")


@rule("E02")
def borrowed(ctx):
    R = "E02.cache"
    src = {FIND}
    changes = {}
    keep = lambda k, t, x=None: k in ("setitem", "mut", "delitem", "call", "raises", "setattr")
    runs = list(sweep(ctx, only=lambda q: q.startswith(S) and q != FIND, keep=keep, track=None))
    for fi, p in runs:
        first = fi.node.args.args[0].arg if fi.node.args.args else None
        for e in p.events:
            if e.kind in ("setitem", "mut", "delitem") and e.t.op == "p" and e.t.a[0] == first:
                changes.setdefault(fi.qual, e.line)
    for fi, p in runs:
        for e in p.events:
            bad = None
            if e.kind in ("setitem", "mut", "delitem") and cached(e.t, src):
                bad = "the cached list %s is changed" % show(e.t)
            elif e.kind in ("call", "raises") and e.t.op == "call":
                n = e.t.a[0].a[0] if e.t.a[0].op == "g" else None
                a = arg(e.t, 0, None)
                if n in changes and a is not None and cached(a, src):
                    bad = "%s changes the cached list %s it is given" % (n, show(a))
                if e.t.a[0].op == "attr" and e.t.a[0].a[1] in MUTATORS and cached(e.t.a[0].a[0], src):
                    bad = "the cached list %s is changed" % show(e.t.a[0].a[0])
                if not bad and not any(exposes(x, src) for x in e.t.a[1].a):
                    continue
            elif e.kind not in ("setitem", "mut", "delitem"):
                continue
            ctx.ob(R, fi.qual, bad is None, bad or "", fi, e.line)
        if p.ctl == "ret":
            ex = exposes(p.val, src)
            ctx.ob("E02.exposed", fi.qual, not ex, "the list held by linecache is returned: %s" % [show(x) for x in ex], fi,
                   p.events[-1].line if p.events else 0)
    ctx.floor("E02.exposed", 60)


def tracked_names(fn, funcs, params=()):
    """names of a function bound to a list of linecache (flow-insensitive), and whether it returns one"""
    names = set(params)
    size = -1

    def src(e):
        if isinstance(e, ast.Name):
            return e.id in names
        if isinstance(e, ast.Call):
            f = e.func
            n = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", None)
            return n in ("getlines", "updatecache") or n in funcs
        if isinstance(e, ast.IfExp):
            return src(e.body) or src(e.orelse)
        if isinstance(e, ast.BoolOp):
            return any(src(v) for v in e.values)
        if isinstance(e, ast.NamedExpr):
            return src(e.value)
        return False
    while size != len(names):
        size = len(names)
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign) and src(n.value):
                names |= {t.id for t in n.targets if isinstance(t, ast.Name)}
            elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and n.value is not None and src(n.value) and \
                    isinstance(n.target, ast.Name):
                names.add(n.target.id)
    return names, src


@rule("E02")
def search(ctx):
    """findsource itself: the lists it reads are not changed"""
    R = "E02.search"
    mod = {q[len(S):]: fi for q, fis in ctx.prog.funcs.items() if q.startswith(S) and "." not in q[len(S):] for fi in fis}
    funcs, size = set(), -1
    while size != len(funcs):
        size = len(funcs)
        for n, fi in mod.items():
            names, src = tracked_names(fi.node, funcs)
            if n != "findsource" and any(isinstance(x, ast.Return) and x.value is not None and src(x.value)
                                         for x in ast.walk(fi.node)):
                funcs.add(n)
    todo = [("findsource", ())] + [(n, ()) for n in sorted(funcs)]
    done = set()
    sites = 0
    while todo:
        n, params = todo.pop()
        if (n, params) in done or n not in mod:
            continue
        done.add((n, params))
        fi = mod[n]
        names, src = tracked_names(fi.node, funcs, params)
        for x in ast.walk(fi.node):
            bad = None
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and src(x.value):
                bad = "a line of it is replaced or removed"
            elif isinstance(x, ast.AugAssign) and src(x.target):
                bad = "it is extended in place"
            elif isinstance(x, ast.Call):
                f = x.func
                if isinstance(f, ast.Attribute) and src(f.value):
                    sites += 1
                    if f.attr in MUTATORS:
                        bad = "its method %s is called" % f.attr
                    ctx.ob(R, "%s %s" % (fi.qual, f.attr), bad is None, "a list of linecache is changed: %s" % bad, fi, x.lineno)
                    continue
                g_ = getattr(f, "id", None)
                if g_ in mod and any(src(a) for a in x.args):
                    ps = [a.arg for a in mod[g_].node.args.args]
                    todo.append((g_, tuple(sorted(ps[i] for i, a in enumerate(x.args) if src(a) and i < len(ps)))))
                elif g_ in ("getblock", "len", "list", "sorted", "enumerate", "reversed"):
                    sites += any(src(a) for a in x.args)
                    continue
                elif not any(src(a) for a in x.args):
                    continue
                sites += 1
            elif isinstance(x, ast.Subscript) and src(x.value):
                sites += 1
            else:
                continue
            ctx.ob(R, fi.qual, bad is None, "a list of linecache is changed: %s" % bad, fi, x.lineno)
    ctx.ob(R, FIND + " sites", sites >= 3, "the lines searched were not recognised", mod.get("findsource"))


# ------------------------------------------------------------------ E03: names bound by import lines and source text
BUILT = ("builtins", "__builtin__")
HEADB = "len.__module__"


def bound(o, alias, name, name_text):
    """'alias = name' or 'name' line"""
    if o(alias) and not o.any("%s == %s" % (alias, name), "%s == %s" % (name, alias)):
        return "{%s} = %s\n" % (alias, name_text)
    return "%s\n" % name_text


@rule("E03")
def import_line(ctx):
    R = "E03.line"

    def spec(o):
        head, tail = "head", "tail"
        ht, tt = "{head}", "{tail}"
        empty = o.get("head") is False
        types = not empty and o("head == 'types'")
        if types and (o("tail == 'Ellipsis'") or o("tail == 'NotImplemented'")):
            head, ht, types = HEADB, "{%s}" % HEADB, False
        elif types and o("tail == 'None'"):
            return "ret", bound(o, "alias", "tail", "{tail}")
        built = head == HEADB or (not types and not empty and (o("head == 'builtins'") or o("head == '__builtin__'")))
        if built:
            if o("tail == 'ellipsis'"):
                tail, tt = "'EllipsisType'", "EllipsisType"
            if o("%s_intypes(%s)" % (S, tail)):
                head, ht, types = "'types'", "types", True
            elif not o("builtin"):
                return "ret", bound(o, "alias", tail, tt)
        nohead = False
        if head in ("head",) and not types and not built:
            nohead = not o("head")
        line = "import %s" % tt if nohead else "from %s import %s" % (ht, tt)
        rename = o("alias") and not o.any("alias == %s" % tail, "%s == alias" % tail)
        line += " as {alias}\n" if rename else "\n"
        return "ret", line, (ht.strip("{}") if not ht == "types" else "'types'", tail)

    for fi in ctx.funcs(G):
        n = 0
        for p in ctx.run(fi, names=("head", "tail", "alias", "verify", "builtin"), keep=no_trace, track=lambda t: True, excev=True):
            F = facts(p)
            # the head replaced for Ellipsis is that of the builtins
            if any(k in F and F[k] != v for k, v in (("%s == 'builtins'" % HEADB, True), ("%s == '__builtin__'" % HEADB, False),
                                                     (HEADB, True), ("%s.startswith('dill.')" % HEADB, False))):
                continue
            line = p.events[-1].line if p.events else 0
            execs = [e for e in p.events if e.kind in ("call", "raises") and is_call(e.t, "builtins.exec")]
            if p.ctl == "raise":
                continue
            n += 1
            want = None
            from ..lib import completions
            for ex, exp in completions(F, spec, 4096):
                got = text(p.val)
                if is_call(p.val, G):
                    # the import failed: the name is looked for one level up
                    h, t_, a, v, b = (arg(p.val, i, k) for i, k in enumerate(("head", "tail", "alias", "verify", "builtin")))
                    failed = any(e.kind == "raises" for e in execs)
                    ok = len(exp) == 3 and failed and v is not None and show(v) in ("verify", "True") and t_ is not None and show(t_) == exp[2][1] and a is not None and show(a) == "alias" \
                        and h is not None and re.match(r"^%s\.(rsplit|rpartition)\('\.'(, 1)?\)\[0\]$" % re.escape(exp[2][0]),
                                                      show(h)) is not None
                    if not ok:
                        want = "an import of the same name under the same alias from the parent, after the import failed"
                        break
                    continue
                if got != exp[1]:
                    want = repr(exp[1])
                    break
            ctx.ob(R, fi.qual, want is None, "where %s the line is %s instead of %s" % (
                ", ".join(("" if v else "not ") + k for k, v in sorted(F.items()))[:300], text(p.val), want), fi, line)
            if any(e.kind == "raises" for e in execs):
                top = text(p.val).startswith("from types import") or any(v and re.match(
                    r"^(.*\.(rsplit|rpartition)\('\.'.*\)\[0\]) == |^.* == .*\.(rsplit|rpartition)\('\.'.*\)\[0\]$", k, re.S)
                    for k, v in F.items()) or any(v is False and "'.' in" in k for k, v in F.items())
                ctx.ob("E03.verified", fi.qual + " parent", top or is_call(p.val, G), "the import failed, and is returned although there "
                       "is a parent to try", fi, line)
                ctx.ob("E03.verified", fi.qual + " failure", all("ImportError" in show(e.t) or "ModuleNotFound" in show(e.t)
                                                                 for e in p.events if e.kind == "except"),
                       "another error than a failed import is ignored", fi, line)
            # what is verified is what is returned
            if len(execs) and not is_call(p.val, G):
                ctx.ob("E03.verified", fi.qual, all(text(e.t.a[1].a[0]) == text(p.val) for e in execs),
                       "the line verified (%s) isn't the one returned" % [text(e.t.a[1].a[0]) for e in execs], fi, line)
            if execs:
                ctx.ob("E03.verified", fi.qual + " asked", F.get("verify") is True, "the import is executed whatever verify is", fi, line)
            if F.get("verify") is False:
                ctx.ob("E03.verified", fi.qual, not execs, "the import is executed although verify is false", fi, line)
            if F.get("verify") is True and re.match(r"^(from|import) ", text(p.val)) and \
                    not any(v and k.endswith(".startswith('dill.')") for k, v in F.items()):
                ctx.ob("E03.verified", fi.qual, bool(execs), "the import isn't tested although verify is true", fi, line)
        ctx.ob(R, fi.qual + " paths", n > 20, "only %d paths" % n, fi)


@rule("E03")
def import_of(ctx):
    R = "E03.import"
    for fi in ctx.funcs(S + "getimport"):
        again = set()
        for p in ctx.run(fi, names=("obj", "alias", "verify", "builtin", "enclosing"), keep=no_trace, track=lambda t: True,
                         excev=True):
            F = facts(p)
            line = p.events[-1].line if p.events else 0
            if p.ctl == "raise":
                continue
            out = "dill.detect.outermost(obj)"
            outer = F.get("enclosing") is True and F.get(out) is True
            if F.get("enclosing") is True:
                ctx.ob(R, fi.qual + " enclosing", out in F or (out + " is None") in F, "the enclosing callable isn't looked for",
                       fi, line)
            O = out if outer else "obj"
            if outer:
                pass
            NS = S + "_namespace(%s)" % O
            head, tail = "join('.', %s[slice(None, -1, None)])" % NS, "%s[-1]" % NS
            names = (tail, "repr(%s)" % O, "repr(%s).split('(')[0]" % O, "repr(%s).split('(', 1)[0]" % O,
                     "repr(%s).partition('(')[0]" % O, "%sgetname(%s, True).split('(')[0]" % (S, O),
                     "%sgetname(%s, True).partition('(')[0]" % (S, O), "%sgetname(%s, True).split('(', 1)[0]" % (S, O),
                     "%sgetname(%s, force=True).split('(')[0]" % (S, O))
            if is_call(p.val, G):
                ev = [e for e in p.events if e.kind == "except" or e.kind in ("raises", "call") and is_call(e.t, G)]
                for x, y, z in zip(ev, ev[1:], ev[2:]):
                    if x.kind == "raises" and y.kind == "except" and is_call(z.t, G) and show(arg(z.t, 1, "tail")) == tail:
                        again |= {n for n in ("ImportError", "SyntaxError", "Exception") if n in show(y.t)}
                h, t_, a, v, b = (arg(p.val, i, k) for i, k in enumerate(("head", "tail", "alias", "verify", "builtin")))
                sh = [None if x is None else show(x) for x in (h, t_, a, v, b)]
                ctx.ob(R, fi.qual + " name", sh[0] == head and sh[1] in names, "the import is built from %s and %s" % (sh[0], sh[1]),
                       fi, line)
                ctx.ob(R, fi.qual + " options", sh[2] == "alias" and sh[3] == "verify" and sh[4] == "builtin",
                       "alias, verify, builtin are given as %s" % sh[2:], fi, line)
                continue
            ps = pieces(p.val)
            terms = [show(x) for x in ps if isinstance(x, tm.T)]
            last = terms[-1] if terms else None
            built = any(F.get("%s == '%s'" % (head, b)) for b in BUILT)
            failed = any(e.kind == "except" and "SyntaxError" in show(e.t) or e.kind == "except" and "Exception" in show(e.t)
                         for e in p.events)
            ctx.ob(R, fi.qual + " repr", built and failed and last in names, "a line without import (%s) is given for an object "
                   "that is no builtin, or whose import isn't malformed" % text(p.val), fi, line)
            alias_line(ctx, R, fi, p, F, text(p.val), last, line)
        for k in ("ImportError", "SyntaxError"):
            ctx.ob(R, "%s again %s" % (fi.qual, k), k in again or "Exception" in again, "the name isn't looked for in the namespace after the "
                   "import of the name in the repr failed with %s" % k, fi)


def alias_line(ctx, R, fi, p, F, got, name, line, before=""):
    a = F.get("alias")
    same = F.get("alias == %s" % name)
    if same is None:
        same = F.get("%s == alias" % name)
    with_, without = "%s{alias} = {%s}\n" % (before, name), "%s{%s}\n" % (before, name)
    if got == with_:
        ok = a is True and same is False
    elif got == without:
        ok = a is False or same is True
    else:
        ok = False
    ctx.ob(R, fi.qual + " alias", ok, "with alias %s (equal to the name: %s) the line is %s" % (a, same, got), fi, line)


@rule("E03")
def import_or_source(ctx):
    R = "E03.any"
    for fi in ctx.funcs(S + "_importable"):
        for p in ctx.run(fi, names=("obj", "alias", "source", "enclosing", "force", "builtin", "lstrip"), keep=no_trace,
                         track=lambda t: True, excev=True):
            F = facts(p)
            line = p.events[-1].line if p.events else 0
            src = F.get("source")
            if F.get("source is None") is True:
                src = F.get(S + "isfrommain(obj)")
            elif src is None and F.get("source is None") is None:
                src = None
            tries = []
            for e in p.events:
                if e.kind in ("call", "raises") and e.t.op == "call" and e.t.a[0].op == "g":
                    f = e.t.a[0].a[0]
                    if f == S + "_isinstance" and e.kind == "raises":
                        tries.append(("getimport", True))      # its first step
                    if f in (S + "getsource", S + "getimport"):
                        tries.append((f[len(S):], e.kind == "raises"))
                        opt(ctx, R, fi, e)
            kinds = [k for k, _ in tries]
            want = ["getsource", "getimport"] if src else ["getimport", "getsource"]
            ctx.ob(R, fi.qual + " order", src is not None and kinds == want[:len(kinds)] or
                   src is not None and not kinds and p.ctl == "raise", "with source %s the ways tried are %s" % (src, kinds), fi, line)
            if p.ctl == "raise":
                if p.implicit:
                    continue
                ctx.ob(R, fi.qual + " last", exc_name(p.val) == "AttributeError" and kinds == want or exc_name(p.val) != "AttributeError",
                       "fails before all ways were tried: %s" % kinds, fi, line)
                continue
            if is_call(p.val, S + "getsource", S + "getimport"):
                ctx.ob(R, fi.qual + " result", not tries[-1][1] and kinds and show(p.val).startswith(S + kinds[-1]),
                       "the result isn't that of the last way tried", fi, line)
                inst = F.get(S + "_isinstance(obj)")
                if is_call(p.val, S + "getimport"):
                    ctx.ob(R, fi.qual + " instance", inst is False, "an instance is replaced by the import of its class", fi, line)
                continue
            ps = pieces(p.val)
            terms = [x for x in ps if isinstance(x, tm.T)]
            name = show(terms[-1]) if terms else "None"
            before = ""
            if terms and is_call(terms[0], S + "getimport"):
                before = "{%s}" % show(terms[0])
                ctx.ob(R, fi.qual + " instance", F.get(S + "_isinstance(obj)") is True and name in (
                    S + "getname(obj, True)", S + "getname(obj, force=True)"), "the name used is %s" % name, fi, line)
            else:
                ctx.ob(R, fi.qual + " name", kinds == want and name in (S + "getname(obj, force)", S + "getname(obj, force=force)"),
                       "the name %s is used after %s" % (name, kinds), fi, line)
                bad = any((k == name or k.startswith(name + ".startswith")) and (v is (k != name)) for k, v in F.items())
                known = F.get(name) is True and F.get(name + ".startswith('<')") is False
                ctx.ob(R, fi.qual + " named", known and not bad, "a name like <object ...> is used", fi, line)
            alias_line(ctx, R, fi, p, F, text(p.val), name, line, before)


OPTIONS = {"getsource": ("object", "alias", "lstrip", "enclosing", "force", "builtin"),
           "getimport": ("obj", "alias", "verify", "builtin", "enclosing")}


def opt(ctx, R, fi, e):
    f = e.t.a[0].a[0][len(S):]
    got = {k: show(x) for i, k in enumerate(OPTIONS[f]) if (x := arg(e.t, i, k)) is not None}
    inst = {show(k): v for k, v in e.facts.items()}.get(S + "_isinstance(obj)")
    want = {k: ("alias",) if k == "alias" else ("not force",) if k == "verify" else (k,) for k in OPTIONS[f][1:]}
    want[OPTIONS[f][0]] = ("obj",)
    if f == "getimport":
        want["alias"] = (None, "''") if inst is True else ("alias",)
    bad = {k: got.get(k) for k, v in want.items() if got.get(k) not in v}
    ctx.ob(R, "%s %s" % (fi.qual, f), not bad, "%s is called with %s" % (f, bad), fi, e.line)


def short(s, L):
    return s.replace(L, "LINES")


@rule("E03")
def source_text(ctx):
    """dill.source.getsource: what is added to the lines found"""
    R = "E03.source"
    LINES = S + "getsourcelines(object, enclosing=enclosing)[0]"
    seen = set()
    for fi in ctx.funcs(S + "getsource"):
        for p in ctx.run(fi, names=("object", "alias", "lstrip", "enclosing", "force", "builtin"), keep=no_trace,
                         track=lambda t: True, excev=True, lasting=lambda t: True):
            F = facts(p)
            line = p.events[-1].line if p.events else 0
            failed = any(e.kind == "raises" and is_call(e.t, S + "getsourcelines") for e in p.events)
            if p.ctl == "raise":
                continue
            if failed:
                ctx.ob("E03.force", fi.qual, F.get("force") is True, "without force a failure to find the source isn't reported",
                       fi, line)
            if F.get("force") is False:
                ctx.ob("E03.force", fi.qual, not failed, "without force a failure to find the source isn't reported", fi, line)
            v = p.val
            if not (v.op == "join" and show(v.a[0]) == "''"):
                inst = F.get(S + "_isinstance(object)")
                ctx.ob(R, fi.qual + " import", failed, "an import is given though the source was found", fi, line)
                if is_call(v, S + "getimport"):
                    got = [show(x) if x is not None else None for x in (arg(v, 0, "obj"), arg(v, 1, "alias"), arg(v, 3, "builtin"))]
                    ctx.ob(R, fi.qual + " import", got == ["object", "alias", "builtin"], "the import is that of %s" % got, fi, line)
                    ctx.ob(R, fi.qual + " instance", inst is False or any(F.get("object.__module__ == '%s'" % b) for b in BUILT),
                           "an instance is replaced by the import of its class", fi, line)
                    continue
                terms = [x for x in pieces(v) if isinstance(x, tm.T)]
                ok = len(terms) >= 2 and is_call(terms[0], S + "getimport") and arg(terms[0], 1, "alias") is None
                ctx.ob(R, fi.qual + " import", ok, "returns %s" % text(v), fi, line)
                if ok:
                    alias_line(ctx, R, fi, p, F, text(v), show(terms[-1]), line, "{%s}" % show(terms[0]))
                continue
            L = v.a[1]
            alias = F.get("alias")
            dumped = any(is_call(e.t, S + "dumpsource") for e in p.events if e.kind == "call")
            inst = F.get(S + "_isinstance(object)")
            nice = F.get("'(' in repr(object)")
            ctx.ob(R, fi.qual + " dump", dumped == (inst is True and nice is False), "for an instance %s with a repr that can be "
                   "called %s the object is dumped: %s" % (inst, nice, dumped), fi, line)
            if not dumped:
                t = L
                while t.op == "sub" and t.a[1].op == "slice":
                    t = t.a[0]
                out = is_call(t, S + "_outdent")
                want = alias is True or F.get("lstrip") is True
                ctx.ob("E03.outdent", fi.qual, out == want and (out or alias is False and F.get("lstrip") is False),
                       "with lstrip %s and alias %s the source is outdented: %s" % (F.get("lstrip"), alias, out), fi, line)
            n_new, n_bind = 0, []
            for e in p.events:
                what = None
                if e.kind == "call" and e.t.op == "call" and e.t.a[0].op == "attr" and e.t.a[0].a[1] == "append" and len(e.t.a[1].a) == 1:
                    what = e.t.a[1].a[0]
                elif e.kind == "mut" and show(e.x.a[0]) == "'append'":
                    what = e.x.a[1]
                elif e.kind == "setitem":
                    i, w = e.x.a
                    # alias = old line
                    tx = pieces(w)
                    ok = len(tx) == 3 and show(tx[0]) == "alias" and tx[1] == " = " and isinstance(tx[2], tm.T) and tx[2].op == "sub" \
                        and show(tx[2].a[1]) == show(i)
                    if ok:
                        n_bind.append(("line", show(tx[2])))
                    ctx.ob(R, fi.qual + " line", ok, "line %s becomes %s" % (show(i), text(w)[:200]), fi, e.line)
                    continue
                else:
                    continue
                tx = text(what)
                if tx in ("{fv('r', object)}\n", "{repr(object)}\n"):
                    n_new += 1
                    ctx.ob(R, fi.qual + " new", inst is True and nice is True,
                           "the repr is added where instance is %s" % inst, fi, e.line)
                    continue
                m = re.match(r"^\n?\{alias\} = \{(.*)\}\n$", tx, re.S)
                ctx.ob(R, fi.qual + " added", m is not None, "the line %s is added" % tx[:200], fi, e.line)
                if m:
                    n_bind.append(("added", m.group(1)))
            if inst is True and nice is True:
                ctx.ob(R, fi.qual + " new", n_new == 1, "the instance isn't created", fi, line)
            if dumped:
                # the lines of the dump are a new list, whose changes are part of its contents
                continue
            for k, b in F.items():
                m = re.match(r"^elem\((.*)\)\.startswith\('@'\)$", k, re.S)
                if m and any(("%s[%d]" % (m.group(1), 1 - b)) in q for q in F):
                    ctx.ob(R, fi.qual + " skip", False, "the line looked at is one that %s" % (
                        "is a decorator" if b else "comes after one that isn't a decorator"), fi, line)
            cmp_ = {m.group(1) or m.group(2): b for k, b in F.items()
                    if (m := re.match(r"^(?:alias == (.+)|(.+) == alias)$", k, re.S))}
            if alias is not True:
                ctx.ob(R, fi.qual + " alias", alias is False and not n_bind, "without an alias a name is bound", fi, line)
                continue
            ok = False
            if not n_bind:
                ok = any(b is True for b in cmp_.values())
            elif len(n_bind) == 1:
                kind, name = n_bind[0]
                key = "%s.split('=')[0].strip()" % name if kind == "line" else name
                alts = (key, key.replace("split('=')", "split('=', 1)"), key.replace("split('=')", "partition('=')"))
                ok = any(cmp_.get(a) is False for a in alts)
                if kind == "added":
                    ok = ok and (name in ("object.__name__", S + "getname(object, True)", S + "getname(object, force=True)"))
            seen.update(k for k, _ in n_bind)
            ctx.ob(R, fi.qual + " alias", ok, "with an alias the names bound are %s, compared with the alias: %s" % (
                [(k, short(n, show(L))) for k, n in n_bind], {short(k, show(L)): v for k, v in cmp_.items()}), fi, line)
        for k in ("line", "added"):
            ctx.ob(R, "%s %s" % (fi.qual, k), k in seen, "an alias is never bound by a %s" % k, fi)


# ------------------------------------------------------------------ E04: text that is executed
RUN = ("builtins.exec", "builtins.eval", "builtins.compile")
# functions whose purpose is to evaluate the text they are given or have read
BY_DESIGN = {
    S + "_matchlambda": "compares a lambda with its own source",
    S + "_wrap": "evaluates the source or import found for a function",
    S + "_wrap.<locals>.func": "evaluates the source or import found for a function",
    "dill.temp.load_source": "loads the source stored in a file", "dill.temp.loadIO_source": "loads the source stored in a buffer",
    "dill._dill._eval_repr": "loads a repr from a pickle", "dill._dill._getattr": "loads a name from a pickle",
}
EACHNAME = re.compile(r"^elem\((.*)\)\.isidentifier\(\)$", re.S)     # in a loop over all of them
ALLNAMES = re.compile(r"^all\(loop\((.*)\), elem\(\1\)\.isidentifier\(\)\)$", re.S)


def is_name(s, F):
    """is the text s known to be a name, or names joined with dots?"""
    if F.get(s + ".isidentifier()") is True:
        return True
    for k, v in F.items():
        m = (ALLNAMES.match(k) or EACHNAME.match(k)) if v is True else None
        if m and (m.group(1) == "%s.split('.')" % s or re.search(r"(?:\(|, |\[)%s(?:\.split\('\.'\)|\]|, )" % re.escape(s), m.group(1))):
            return True
    return False


@rule("E04")
def executed(ctx):
    R = "E04.text"
    sites = {}
    keep = lambda k, t, x=None: k in ("call", "raises") and t.op == "call" and t.a[0].op == "g" and t.a[0].a[0] in RUN
    mods = {q for q in ctx.prog.funcs}
    for fi, p in sweep(ctx, only=lambda q: has_run(ctx, q), keep=keep, raises="try", excev=True,
                       track=lambda t: "isidentifier" in show(t), lasting=lambda t: "isidentifier" in show(t)):
        F = facts(p)
        for e in p.events:
            if not keep(e.kind, e.t):
                continue
            if any(fi.qual == q or fi.qual.startswith(q + ".") for q in BY_DESIGN):
                ctx.ob("E04.site", fi.qual, True, "", fi, e.line)
                continue
            src = arg(e.t, 0, None)
            t = src
            strip = False
            while t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("lstrip", "strip", "rstrip"):
                t, strip = t.a[0].a[0], True
            for x in pieces(t):
                if not isinstance(x, tm.T):
                    continue
                ok = is_name(show(x), F) or show(x) == HEADB
                if show(x) == "alias" and x.op == "p":
                    ok = True                  # chosen by the caller
                sites[(fi.qual, e.line)] = True
                ctx.ob(R, "%s %s" % (fi.qual, e.t.a[0].a[0]), ok, "%s is executed as part of %s without being known to be a "
                       "name" % (show(x), text(t)[:200]), fi, e.line)
    ctx.ob("E04.sites", "dill.source", len([k for k in sites if k[0].startswith(S)]) >= 1, "no text made from the names of an object was found "
           "to be executed")


def has_run(ctx, q):
    """may the function, or a helper inlined into it, execute text?"""
    seen, todo = set(), [q]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        for fi in ctx.prog.funcs.get(n, ()):
            for x in ast.walk(fi.node):
                if isinstance(x, ast.Name):
                    if x.id in ("exec", "eval"):
                        return True
                    h = fi.module + "." + x.id
                    if h in ctx.prog.funcs and h not in ctx.vocab:
                        todo.append(h)
    return False


# ------------------------------------------------------------------ E05: choosing between import and source
@rule("E05")
def frommain(ctx):
    for fi in ctx.funcs(S + "isfrommain"):
        def spec(o):
            M = "inspect.getmodule(obj)"
            if not (not o("%s is None" % M) if o.get("%s is None" % M) is not None else o(M)):
                return "ret False"
            k = "%s.__name__ == '__main__'" % M
            return OneOf("ret %s" % k, "ret %s" % o(k))
        ctx.table("E05.main", fi, ctx.paths(fi, names=("obj",)), result, spec)
    for fi in ctx.funcs(S + "isdynamic"):
        def out(p):
            return result(p)

        def spec2(o):
            if not o.any("inspect.getfile(obj) == '<stdin>'"):
                return "ret False"
            return "ret %s" % o(S + "isfrommain(obj)")
        for p in ctx.run(fi, names=("obj",), keep=no_trace, track=lambda t: True, excev=True):
            failed = any(e.kind == "raises" and is_call(e.t, "inspect.getfile") for e in p.events)
            if p.ctl == "raise":
                ctx.ob("E05.dynamic", fi.qual, p.implicit, "fails: %s" % result(p), fi)
                continue
            if failed:
                ctx.ob("E05.dynamic", fi.qual, result(p) == "ret False", "an object without a file is called dynamic", fi)
                continue
            F = facts(p)
            std, main = F.get("inspect.getfile(obj) == '<stdin>'"), F.get(S + "isfrommain(obj)")
            ok = {"ret True": std is True and main is True, "ret False": std is False or main is False,
                  "ret %sisfrommain(obj)" % S: std is True,
                  "ret inspect.getfile(obj) == '<stdin>'": main is True}.get(result(p), False)
            ctx.ob("E05.dynamic", fi.qual, ok, "where the file is <stdin>: %s and the module __main__: %s, %s" % (
                std, main, result(p)), fi, p.events[-1].line if p.events else 0)


SRC, IMP = S + "_closuredsource", S + "_closuredimport"


def holds_source(t):
    """a fact about (the presence of) source text, or about the number of imports found"""
    s = show(t)
    return t.op != "call" and ("_closuredsource(" in s or "globalvars(obj)" in s) or "_closuredimport(" in s


def two(k):
    """what a comparison with a length says if the length is 2"""
    m = re.match(r"^(\d+) (<|<=|==|!=) len\(.*\)$|^len\(.*\) (<|<=|==|!=|>|>=) (\d+)$", k, re.S)
    if m is None:
        return None
    a, op, b = (int(m.group(1)), m.group(2), 2) if m.group(1) else (2, m.group(3), int(m.group(4)))
    return {"<": a < b, "<=": a <= b, "==": a == b, "!=": a != b, ">": a > b, ">=": a >= b}[op]


@rule("E05")
def fallback(ctx):
    R = "E05.order"
    for fi in ctx.funcs(S + "importable"):
        starts, ends = set(), set()
        asked_ = ("source is None", "inspect.isbuiltin(obj)", S + "isfrommain(obj)", "source", "builtin")
        ways = (IMP, SRC, S + "_isinstance", S + "_importable", "dill.detect.globalvars", S + "getsource")
        for p in ctx.run(fi, names=("obj", "alias", "source", "builtin"), excev=True,
                         keep=lambda k, t, x=None: k == "except" or k in ("call", "raises") and is_call(t, *ways),
                         track=lambda t: show(t) in asked_ or show(t) == S + "_isinstance(obj)" or holds_source(t),
                         lasting=lambda t: show(t) in asked_):
            F = facts(p)
            full = [k for k, b in F.items() if b and k.endswith("]") and ("popped(" in k or "elem(" in k) and "globalvars" not in k]
            if any(not b and k.startswith("join(") and any(q in k or q[:-3] in k and q.endswith("[0]") for q in full) for k, b in F.items()):
                continue            # texts that aren't empty, joined, aren't empty
            line = p.events[-1].line if p.events else 0
            tries = []
            for e in p.events:
                if e.kind not in ("call", "raises") or e.t.op != "call" or e.x is not None:
                    continue
                f = e.t.a[0].a[0] if e.t.a[0].op == "g" else None
                way = {IMP: "import", SRC: "source"}.get(f)
                if f == S + "_isinstance" and e.kind == "raises":
                    way = "import"          # its first step
                if f == S + "_importable":
                    way = "import"
                    got = [None if x is None else show(x) for x in (arg(e.t, 0, "obj"), arg(e.t, 1, "alias"), arg(e.t, 2, "source"),
                                                                    arg(e.t, 5, "builtin"))]
                    ctx.ob("E05.object", fi.qual, got == ["obj", "alias", "False", "builtin"], "_importable is called with %s" % got,
                           fi, e.line)
                elif f in (IMP, SRC):
                    got = [None if x is None else show(x) for x in (arg(e.t, 0, "func"), arg(e.t, 1, "alias"))]
                    ctx.ob("E05.object", fi.qual, got == ["obj", "alias"], "%s is called with %s: not with the object asked for"
                           % (f, got), fi, e.line)
                    if f == IMP:
                        b = arg(e.t, 2, "builtin")
                        ctx.ob("E05.object", fi.qual, b is not None and show(b) == "builtin", "builtin is given as %s" % b, fi, e.line)
                elif f == S + "_isinstance":
                    a = arg(e.t, 0, "object")
                    ctx.ob("E05.object", fi.qual, a is not None and show(a) == "obj", "%s is tested instead of the object" % a, fi,
                           e.line)
                elif f == "dill.detect.globalvars":
                    a = arg(e.t, 0, "func")
                    ctx.ob("E05.object", fi.qual, a is not None and show(a) == "obj", "the globals of %s are added" % a, fi, e.line)
                if way:
                    tries.append(way)
            if p.ctl == "raise" and p.implicit and not tries:
                continue
            none = F.get("source is None")
            first = None
            if none is True:
                main = F.get(S + "isfrommain(obj)")
                first = {True: "source", False: "import"}.get(main)
            else:
                b, isb, s = F.get("builtin"), F.get("inspect.isbuiltin(obj)"), F.get("source")
                if b is True and isb is True:
                    first = "import"
                elif b is False or isb is False:
                    first = {True: "source", False: "import"}.get(s)
            if not tries:
                continue
            starts.add((first, tries[0]))
            ctx.ob(R, fi.qual + " first", first == tries[0], "where %s the %s is looked for first" % (
                ", ".join(("" if v else "not ") + k for k, v in sorted(F.items())), tries[0]), fi, line)
            ctx.ob(R, fi.qual + " once", len(tries) <= 2 and len(set(tries)) == len(tries), "the ways tried are %s" % tries, fi, line)
            if p.ctl == "raise":
                ends.add("raise")
                if not p.implicit or any(e.kind == "except" for e in p.events):
                    ctx.ob(R, fi.qual + " both", len(tries) == 2, "fails although only the %s was looked for" % tries, fi, line)
                continue
            v = p.val
            last = tries[-1]
            s = show(v)
            if s == "None":
                ctx.ob(R, fi.qual + " result", False, "nothing is returned", fi, line)
                continue
            if last == "import":
                ok = is_call(v, S + "_importable") or "_closuredimport(" in s and "_closuredsource(" not in s
                inst = F.get(S + "_isinstance(obj)")
                if is_call(v, S + "_importable"):
                    ctx.ob(R, fi.qual + " instance", inst is True, "an object that is no instance is treated as one", fi, line)
                else:
                    ctx.ob(R, fi.qual + " instance", inst is False, "an instance is treated like a function", fi, line)
                    n = [(k, b) for k, b in F.items() if "len(" + IMP in k]
                    one = any(two(k) is (not b) for k, b in n)
                    ctx.ob(R, fi.qual + " single", one, "one of several imports found is returned: known are %s" % n, fi, line)
            else:
                ok = s == "''" or "_closuredsource(" in s or s.startswith("join(") and "globalvars(obj)" in s
            ends.add(last)
            if last == "source":
                refs, own = s.find("globalvars(obj)"), s.find("_closuredsource(")
                ctx.ob(R, fi.qual + " together", refs < 0 or own < 0 or refs < own, "what the object refers to comes after it", fi,
                       line)
                lost = [k for k, b in F.items() if b and (
                    refs < 0 and re.match(r"^(join|add)\(.*globalvars\(obj\)", k, re.S) or
                    own < 0 and re.match(r"^(?!len)[^=<>]*_closuredsource\(.*[\])]$", k, re.S) and "popped(" in k and "globalvars" not in k)]
                ctx.ob(R, fi.qual + " complete", not lost, "the source found is left out: %s" % lost[:1], fi, line)
            ctx.ob(R, fi.qual + " result", ok, "the %s found last isn't returned, but %s" % (last, s[:200]), fi, line)
        for k in (("source", "source"), ("import", "import")):
            ctx.ob(R, "%s %s first" % (fi.qual, k[0]), k in starts, "the %s is never looked for first" % k[0], fi)
        for k in ("source", "import"):
            ctx.ob(R, "%s %s" % (fi.qual, k), k in ends, "the %s is never returned" % k, fi)


# ------------------------------------------------------------------ E06: source text that contains a pickle
DUMP = "repr(dill._dill.dumps(object))"
REPLACE = re.compile(r"^\.replace\(b\{repr\(object\.__module__\)\}, ?bytes\(__name__, ?[\"']UTF-8[\"']\)\)$")


@rule("E06")
def dump(ctx):
    R = "E06.dump"
    stubs = set()
    for fi in ctx.funcs(S + "dumpsource"):
        kinds = set()
        for p in ctx.run(fi, names=("object", "alias", "new", "enclose"), keep=no_trace, track=lambda t: True):
            if p.ctl == "raise":
                if not p.implicit:
                    ctx.ob(R, fi.qual, False, "fails: %s" % result(p), fi)
                continue
            F = facts(p)
            line = p.events[-1].line if p.events else 0
            got = text(p.val)
            alias, new, encl, inst = F.get("alias"), F.get("new"), F.get("enclose"), F.get(S + "_isinstance(object)")
            if encl is not False:
                inner = None
                ps = pieces(p.val)
                E = None
                for x in ps:
                    if isinstance(x, tm.T) and is_call(x, S + "indent"):
                        inner = x
                    m = re.search(r"%s_enclose\('(\w+)', alias\)" % re.escape(S), show(x)) if isinstance(x, tm.T) else None
                    E = E or m
                if inner is None or E is None:
                    ctx.ob(R, fi.qual + " enclosed", False, "the code isn't put into an enclosing function: %s" % got[:300], fi, line)
                    continue
                enc = E.group(0) + ".split('\\n')"
                ok = encl is True and got == "{%s[0]}\n{%s}{join('\\n', %s[slice(-3, None, None)])}" % (enc, show(inner), enc)
                ctx.ob(R, fi.qual + " enclosed", ok, "the enclosing function is built as %s" % got[:300], fi, line)
                code = text(inner.a[1].a[0])
                m = re.match(r"^import dill\n(\w+) = dill\.loads\(\{%s\}\)\n$" % re.escape(DUMP), code)
                ctx.ob(R, fi.qual + " body", m is not None and len(inner.a[1].a) == 1, "the enclosed code is %r" % code, fi, line)
                if m:
                    stubs.add(m.group(1))
                kinds.add("enclosed")
                continue
            m = re.match(r"^import dill\n(\{%sgetsource\(object\.__class__, [^}]*\)\})?(\{alias\}(?: = )?)?dill\.loads\(\{%s\}(.*)\)\n$" % (
                re.escape(S), re.escape(DUMP)), got, re.S)
            ctx.ob(R, fi.qual + " code", m is not None, "the code is %s" % got[:300], fi, line)
            if not m:
                continue
            cls, name, edit = m.groups()
            want = {True: "{alias} = ", False: ""}.get(alias)
            ctx.ob(R, fi.qual + " alias", (name or "") == want or alias is False and name == "{alias}", "with alias %s the pickle "
                   "is loaded as %r" % (alias, name), fi, line)
            isnew = new is True and inst is True
            known = new is False or inst is not None
            ctx.ob(R, fi.qual + " new", known and bool(cls) == isnew, "with new %s, for an instance: %s, the source of the class is "
                   "included: %s" % (new, inst, bool(cls)), fi, line)
            if not cls:
                ctx.ob("E06.edited", fi.qual, not edit, "the pickle is altered by %s" % edit, fi, line)
            elif edit:
                ctx.ob("E06.edited", "dill.source.dumpsource:replace" if REPLACE.match(edit) else fi.qual, False,
                       "the bytes of the pickle are altered by %s" % edit, fi, line)
            kinds.add("new" if cls else "plain")
        for k in ("enclosed", "new", "plain"):
            ctx.ob(R, "%s %s" % (fi.qual, k), k in kinds, "code of the kind %s is never made" % k, fi)
    for fi in ctx.funcs(S + "_enclose"):
        for p in ctx.run(fi, names=("object", "alias"), keep=no_trace, track=lambda t: True):
            if p.ctl == "raise":
                continue
            F = facts(p)
            line = p.events[-1].line if p.events else 0
            got = text(p.val)
            m = re.match(r"^def (\w+)\(\):\n\{%s\}\{%s\}(\{alias\} = )?(\w+)\(\); del (\w+)\n$" % (
                re.escape(S) + r"indent\(%sgetsource\(object, (?:alias=)?'(\w+)', ([^}]*)\)(?:, 4)?\)" % re.escape(S),
                re.escape(S) + r"indent\('return (\w+)\\n'(?:, 4)?\)"), got)
            ctx.ob("E06.enclose", fi.qual, m is not None, "the enclosing function is %s" % got[:300], fi, line)
            if not m:
                continue
            d, stub, opts, ret, name, call_, del_ = m.groups()
            ctx.ob("E06.enclose", fi.qual + " names", d == call_ == del_ and stub == ret, "defines %s, calls %s, deletes %s; binds %s, "
                   "returns %s" % (d, call_, del_, stub, ret), fi, line)
            stubs.add(stub)
            ctx.ob("E06.enclose", fi.qual + " alias", F.get("alias") is bool(name), "with alias %s: %s" % (F.get("alias"), got[-80:]),
                   fi, line)
            o = sorted(opts.replace(" ", "").split(","))
            ctx.ob("E06.enclose", fi.qual + " options", "force=True" in o and ("lstrip=True" in o or "True" in o), "the source is "
                   "asked for with %s" % opts, fi, line)
    ctx.ob("E06.enclose", S + "dumpsource stub", len(stubs) == 1, "the name assigned inside the enclosing function and the one it "
           "returns differ: %s" % sorted(stubs))


# ------------------------------------------------------------------ E03: names
@rule("E03")
def name_of(ctx):
    R = "E03.name"
    M = "inspect.getmodule(obj)"
    for fi in ctx.funcs(S + "getname"):
        kinds = set()
        for p in ctx.run(fi, names=("obj", "force", "fqn"), keep=no_trace, track=lambda t: True, excev=True):
            F = facts(p)
            line = p.events[-1].line if p.events else 0
            if p.ctl == "raise":
                if not p.implicit:
                    ctx.ob(R, fi.qual, False, "fails: %s" % result(p), fi)
                continue
            v = show(p.val)
            if F.get("fqn") is True:
                ctx.ob(R, fi.qual + " fqn", v == "join('.', %s_namespace(obj))" % S, "the qualified name is %s" % v, fi, line)
                kinds.add("fqn")
                continue
            mod = F.get(M)
            if mod is None and F.get(M + " is None") is not None:
                mod = not F.get(M + " is None")
            failed = any(e.kind == "except" for e in p.events)
            if mod is False:
                if F.get("force") is False:
                    ctx.ob(R, fi.qual + " none", v == "None", "without force the name of an object without module is %s" % v, fi, line)
                else:
                    sp = v.startswith("add(") or v.startswith("fmt(")
                    ok = v == "repr(obj)" or sp and S + "getname(obj.__class__)" in v and "repr(obj.tolist())" in v and \
                        F.get("hasattr(obj, 'dtype')") is True and F.get("obj.shape") is False
                    ctx.ob(R, fi.qual + " repr", F.get("force") is True and ok, "with force the name of an object without module is %s"
                           % v, fi, line)
                kinds.add("none" if v == "None" else "repr")
                continue
            if mod is not True:
                ctx.ob(R, fi.qual, False, "the module isn't looked for: %s" % v, fi, line)
                continue
            if failed:
                # no __name__
                if F.get("force") is False:
                    ok = v == "None"
                else:
                    lt = F.get("repr(obj).startswith('<')")
                    ok = F.get("force") is True and (v == "None" and lt is True or v == "repr(obj)" and lt is False)
                ctx.ob(R, fi.qual + " unnamed", ok, "with force %s the name of an object without __name__ is %s" % (F.get("force"), v),
                       fi, line)
                kinds.add("unnamed")
                continue
            ctx.ob(R, fi.qual + " options", "force" not in F, "the name of an object with __name__ depends on force", fi, line)
            lam = F.get("obj.__name__ == '<lambda>'")
            if "getsource(" in v:
                ok = lam is True and re.match(r"^%sgetsource\(obj\)\.(split\('='(, 1)?\)|partition\('='\))\[0\]\.strip\(\)$" % re.escape(S), v)
                ctx.ob(R, fi.qual + " lambda", bool(ok), "the name %s is taken from the source" % v, fi, line)
                kinds.add("lambda")
                continue
            ctx.ob(R, fi.qual + " lambda", lam is False or F.get("obj.__name__ == 'ellipsis'") is True, "the name of a lambda is %s" % v, fi, line)
            if v == "'EllipsisType'":
                ok = F.get("obj.__name__ == 'ellipsis'") is True and any(F.get("%s.__name__ == '%s'" % (M, b)) for b in BUILT)
            else:
                el = F.get("obj.__name__ == 'ellipsis'") is True and any(F.get("%s.__name__ == '%s'" % (M, b)) for b in BUILT)
                ok = v == "obj.__name__" and not el
            ctx.ob(R, fi.qual + " named", ok, "the name is %s" % v, fi, line)
            kinds.add("named")
        for k in ("fqn", "none", "repr", "unnamed", "lambda", "named"):
            ctx.ob(R, "%s %s" % (fi.qual, k), k in kinds, "the case %s is never reached" % k, fi)


# ------------------------------------------------------------------ E07: lines and line numbers go together
def linear(t):
    """a sum as ({term: factor}, constant)"""
    if tm.is_const(t) and isinstance(tm.cval(t), int):
        return {}, int(tm.cval(t))
    if t.op == "neg":
        a, k = linear(t.a[0])
        return {x: -n for x, n in a.items()}, -k
    sub = t.op == "binop" and t.a[0] == "Sub"
    if sub or t.op == "add" or t.op == "binop" and t.a[0] == "Add":
        xs = t.a[1:] if t.op == "binop" else t.a
        out, k = {}, 0
        for n, x in enumerate(xs):
            s = -1 if sub and n else 1
            a, c = linear(x)
            k += s * c
            for y, f in a.items():
                out[y] = out.get(y, 0) + s * f
        return {x: n for x, n in out.items() if n}, k
    return {show(t): 1}, 0


def difference(a, b):
    """a - b if that's a number"""
    x, y = linear(a), linear(b)
    return x[1] - y[1] if x[0] == y[0] else None


def begins(b):
    """lines, n if the block consists of the lines from number n on"""
    if is_call(b, "inspect.getblock"):
        b = arg(b, 0, "lines")
        if b.op == "sub" and b.a[1].op == "slice" and show(b.a[1].a[1]) == show(b.a[1].a[2]) == "None":
            n = b.a[1].a[0]
            return b.a[0], tm.const(0) if show(n) == "None" else n
        return b, tm.const(0)
    if b.op == "list" and len(b.a) == 1 and b.a[0].op == "sub" and b.a[0].a[1].op != "slice":
        return b.a[0].a
    if b.op == "sub" and b.a[1].op == "slice":
        lo, hi, st = b.a[1].a
        if show(st) == "None" and show(hi) != "None":
            lo = tm.const(0) if show(lo) == "None" else lo
            return (b.a[0], lo) if difference(hi, lo) == 1 else (None, None)
    return None, None


def outdented(b):
    """the block before it was outdented, whether it was"""
    if is_call(b, S + "_outdent"):
        sp, w = arg(b, 1, "spaces"), arg(b, 2, "all")
        if (sp is None or show(sp) == "None") and (w is None or show(w) == "True"):
            return arg(b, 0, "lines"), True
    return b, False


def rows(t):
    """the elements of a list: (collected in a loop, element); None if that isn't known"""
    if t.op != "list":
        return None
    out = []
    for x in t.a:
        if x.op != "each":
            out.append((False, x))
            continue
        src = x.a[0].a[0] if x.a[0].op == "loop" else None
        inner = rows(src) if isinstance(src, tm.T) else None
        if inner is None:
            out.append((True, x.a[1]))
            continue
        # every element of another list, changed
        y = x.a[1]
        b, o = outdented(y)
        if show(b) != "elem(%s)" % show(src) and (len(inner) != 1 or show(b) != show(inner[0][1])):
            return None
        out += [(lp, tm.call(y.a[0], (z,)) if o else z) for lp, z in inner]
    return out


@rule("E07")
def block_lines(ctx):
    R = "E07.block"
    F = "%sfindsource(object)" % S
    L, N = F + "[0]", F + "[1]"
    copies = (L + "[slice(None, None, None)]", "builtins.list(%s)" % L, "list(%s)" % L, "copy.copy(%s)" % L, L + ".copy()",
              "[star(%s)]" % L, "[splat(%s)]" % L, "[each(loop(%s), elem(%s))]" % (L, L))
    want = re.compile(r"^(locate|lstrip|enclosing|inspect\.ismodule\(object\))\b| in join|^join\(.* in |^inspect\.indentsize\(|^o\(|^\[|isinstance\(")
    for fi in ctx.funcs(S + "getblocks"):
        ps = ctx.run(fi, names=("object", "lstrip", "enclosing", "locate"), keep=lambda k, t, x=None: k == "mut",
                     track=lambda t: bool(want.search(show(t))), lasting=lambda t: bool(want.search(show(t))))
        seen = set()
        for p in ps:
            if p.ctl == "raise":
                if not p.implicit:
                    ctx.ob(R, fi.qual, False, "fails: %s" % result(p), fi)
                continue
            fs = facts(p)
            line = p.events[-1].line if p.events else 0
            pair = fs.get("locate is True", fs.get("locate"))
            blocks, numbers = p.val, None
            if p.val.op == "tuple":
                ctx.ob(R, fi.qual + " number", pair is True and len(p.val.a) == 2,
                       "%d values are returned although locate is false" % len(p.val.a), fi, line)
                if len(p.val.a) != 2:
                    continue
                blocks, numbers = p.val.a
            else:
                ctx.ob(R, fi.qual + " number", pair is False, "no line number is returned although locate is true", fi, line)
            bs, ns = rows(blocks), numbers is not None and rows(numbers)
            if bs is None or ns is None or not bs:
                ctx.ob(R, fi.qual, False, "the blocks returned are %s" % show(p.val), fi, line)
                continue
            mine = "join('', inspect.getblock(%s[slice(%s, None, None)]))" % (L, N)
            found = sum(v and k.startswith(mine + " in ") for k, v in fs.items())
            empty = re.compile(r"^(0 == |)len\(o\('list'[^()]*\)\)( == 0| < 1|)$|^o\('list'|^\[each\(|^0 < len\(o\('list'|^len\(o\('list'.* <= 0$")
            if found and any(empty.match(k) and v is (k.endswith(("== 0", "< 1", "<= 0")) or k.startswith("0 == ")) for k, v in fs.items()):
                continue    # what was collected isn't empty: no such path
            if numbers is not None:
                ctx.ob(R, fi.qual + " numbers", [l for l, _ in bs] == [l for l, _ in ns],
                       "there isn't one line number for each block: %s" % show(p.val), fi, line)
            module = fs.get("inspect.ismodule(object)")
            ctx.ob(R, fi.qual + " all", found == sum(lp for lp, _ in bs), "%d blocks contain the code of the object, %d of them are returned" % (
                found, sum(lp for lp, _ in bs)), fi, line)
            deep = "inspect.indentsize(%s[%s])" % (L, N)
            deep = [k for k, v in fs.items() if not v and k.startswith(deep + " < inspect.indentsize(") or
                    v and k.startswith("inspect.indentsize(") and k.endswith(") < " + deep)]
            ctx.ob(R, fi.qual + " outer", len(deep) >= sum(lp for lp, _ in bs) or any(show(begins(outdented(b)[0])[1]) == N for lp, b in bs if lp),
                   "a block is returned without a check that it isn't indented more than the object", fi, line)
            for i, (lp, b) in enumerate(bs):
                b, o = outdented(b)
                cut = fs.get("lstrip", None)
                ctx.ob(R, fi.qual + " lstrip", cut is o, "the lines are%s outdented although lstrip is %s" % ("" if o else " not", cut), fi, line)
                n = ns[i][1] if numbers is not None and len(ns) == len(bs) else None
                if show(b) in copies or show(b) == L:
                    ctx.ob(R, fi.qual + " module", module is True, "all lines of the file are returned for what isn't a module", fi, line)
                    ctx.ob(R, fi.qual + " start", n is None or difference(n, tm.const(0)) == 0, "a module starts at line %s" % (n and show(n)),
                           fi, line)
                    seen.add("module")
                    continue
                src, at = begins(b)
                ctx.ob(R, fi.qual + " block", src is not None and show(src) == L and module is not True,
                       "the block is %s, not one block of the lines of the file" % show(b), fi, line)
                if src is None:
                    continue
                if n is not None:
                    ctx.ob(R, fi.qual + " start", difference(n, at) == 0, "the line number is %s, that of the first line is %s" % (
                        show(n), show(at)), fi, line)
                if not lp:
                    ctx.ob(R, fi.qual + " own", show(at) == N, "the block starts at line %s" % show(at), fi, line)
                    seen.add("own")
                    continue
                seen.add("enclosing")
                ctx.ob(R, fi.qual + " asked", fs.get("enclosing") is True, "enclosing code is returned although it wasn't asked for", fi, line)
                inside = ["%s in join('', %s)" % (mine, show(b))]
                if b.op == "list":
                    inside += [inside[0], "%s in fmt(fv('', %s))" % (mine, show(b.a[0])), "%s in %s" % (mine, show(b.a[0]))]
                ctx.ob(R, fi.qual + " encloses", any(fs.get(x) is True for x in inside),
                       "a block is returned without a check that it contains the code of the object", fi, line)
        for k in ("module", "own", "enclosing"):
            ctx.ob(R, "%s %s" % (fi.qual, k), k in seen, "no %s block is ever returned" % k, fi)


@rule("E07")
def last_block(ctx):
    R = "E07.lines"
    for fi in ctx.funcs(S + "getsourcelines"):
        for p in ctx.run(fi, names=("object", "lstrip", "enclosing"), keep=lambda k, t, x=None: False, track=lambda t: True):
            if p.ctl == "raise":
                if not p.implicit:
                    ctx.ob(R, fi.qual, False, "fails: %s" % result(p), fi)
                continue
            ok = p.val.op == "tuple" and len(p.val.a) == 2
            ctx.ob(R, fi.qual + " pair", ok, "returns %s" % show(p.val), fi)
            if not ok:
                continue
            got = []
            for part in p.val.a:
                if part.op == "popped" and len(part.a) == 1:
                    part = tm.mk("sub", part.a[0], tm.const(-1))
                b = part.a[0] if part.op == "sub" and part.a[1].op != "slice" else None
                c = b.a[0] if b is not None and b.op == "sub" else None
                if c is None or not is_call(c, S + "getblocks"):
                    got = None
                    break
                got.append((show(part.a[1]), show(b.a[1]), c))
            ctx.ob(R, fi.qual + " source", got is not None, "returns %s" % show(p.val), fi)
            if got is None:
                continue
            ctx.ob(R, fi.qual + " last", [g[0] for g in got] == ["-1", "-1"] and [g[1] for g in got] == ["0", "1"],
                   "the lines and the line number aren't those of the last block: %s" % show(p.val), fi)
            for _, _, c in got:
                have = [arg(c, i, n) for i, n in enumerate(("object", "lstrip", "enclosing", "locate"))]
                dflt = ("", "False", "False", "False")
                have = [d if x is None else show(x) for x, d in zip(have, dflt)]
                fs = facts(p)
                need = ["object"] + [n for n in ("lstrip", "enclosing")] + ["True"]
                ok = all(x == n or n in fs and x == str(fs[n]) for x, n in zip(have, need))
                ctx.ob(R, fi.qual + " options", ok, "the blocks are those for (%s)" % ", ".join(have), fi)


@rule("E07")
def line_number(ctx):
    R = "E07.find"
    for fi in ctx.funcs(FIND):
        first = fi.node.args.args[0].arg if fi.node.args.args else "object"
        want = re.compile(r"^inspect\.ismodule\(|co_filename")
        ps = ctx.run(fi, names=("object",), keep=lambda k, t, x=None: False, track=lambda t: bool(want.search(show(t))), raises="none")
        seen = set()
        for p in ps:
            if p.ctl == "raise":
                continue
            if p.val.op != "tuple" or len(p.val.a) != 2:
                ctx.ob(R, fi.qual, False, "returns %s" % show(p.val), fi)
                continue
            lines, n = p.val.a
            fs = facts(p)
            known = fs.get(show(lines)) is True or fs.get("len(%s)" % show(lines)) is True or any(
                v and k.startswith("o('list'") for k, v in fs.items()) or show(n) != "0" and False
            seen.add("any")
            if known:
                seen.add("known")
            if not ctx.ob(R, fi.qual + " lines", source_lines(lines), "the lines are %s" % show(lines), fi):
                pass
            module = fs.get("inspect.ismodule(object)")
            base, k = linear(n)
            if module is True:
                ctx.ob(R, fi.qual + " module", not base and k == 0, "a module starts at line %s" % show(n), fi)
                seen.add("module")
                continue
            s = show(n)
            if n.op == "idx" or n.op == "elem":
                ok = True
                seen.add("class")
            elif len(base) == 1 and list(base.values()) == [1]:
                b = list(base)[0]
                if b.endswith(".co_firstlineno"):
                    stdin = [v for q, v in fs.items() if q == b[:-len("co_firstlineno")] + "co_filename == '<stdin>'"]
                    ok = k <= -1
                    if k == -1:
                        seen.add("code")
                elif b == "len(%s)" % show(lines):
                    ok = k <= -1
                    if k == -1:
                        seen.add("history")
                else:
                    ok = best(n)
                    seen.add("class")
            else:
                ok = best(n)
                seen.add("class")
            ctx.ob(R, fi.qual + " start", ok, "the line number is %s" % s, fi)
        for k in ("module", "code", "class", "history"):
            ctx.ob(R, "%s %s" % (fi.qual, k), k in seen, "no line number of the %s is ever returned" % {
                "code": "first line of a code object", "history": "last line of the interpreter's history"}.get(k, k), fi)


def source_lines(t):
    """the lines of a file, or those of an interpreter's history"""
    if is_call(t, "linecache.getlines"):
        return True
    return t.op == "list" and len(t.a) == 1 and t.a[0].op == "each" and "elem(" in show(t.a[0].a[1]) and show(t.a[0].a[1]).endswith(r"'\n')")


def best(n):
    """is the number that of the candidate with the least indentation?"""
    if n.op == "sub" and show(n.a[1]) in ("1", "-1"):
        c = n.a[0]
        if is_call(c, "builtins.min") or c.op == "min":
            return True
        if c.op == "sub" and show(c.a[1]) == "0":
            return is_call(c.a[0], "builtins.sorted") or c.a[0].op in ("list", "sorted") and "sort" in show(c.a[0])
    return False


OBJ = tm.mk("p", "object")


def insp(n, x):
    return tm.call(tm.g("inspect." + n), (x,))


def kind_of(method=False, function=False, traceback=False, frame=False, code=False, cls=None):
    """what is known about an object of one kind, and its code object"""
    pre = {insp("ismodule", OBJ): False, tm.g("dill._dill.IS_IPYTHON"): False, insp("getmodule", OBJ): False}
    if cls is not None:
        pre[insp("isclass", OBJ)] = cls
    x = OBJ
    for n, v, a in (("ismethod", method, "__func__"), ("isfunction", function, "__code__"), ("istraceback", traceback, "tb_frame"),
                    ("isframe", frame, "f_code"), ("iscode", code, None)):
        pre[insp(n, x)] = v
        if v and a:
            x = tm.attr(x, a)
    if code:
        pre[tm.mk("hasattr", x, tm.const("co_firstlineno"))] = True
    return pre, x


KINDS = {
    "a function": kind_of(function=True, code=True, cls=False),
    "a method": kind_of(method=True, function=True, code=True, cls=False),
    "code": kind_of(code=True, cls=False),
    "a frame": kind_of(frame=True, code=True, cls=False),
    "a traceback": kind_of(traceback=True, frame=True, code=True, cls=False),
    "a class": kind_of(cls=True),
}
STARTS = (("def f():\n", True), ("    def f(x):\n", True), ("f = lambda x: x\n", True), ("  g(lambda: 0)\n", True), ("@wrap\n", True),
          ("    @wrap(1)\n", True), ("default = 3\n", False), ("x = f(y)\n", False), ("return mylambda(x)\n", False), ("email = 'a@b'\n", False))
HATS = (("@wrap\n", True), ("    @wrap(1)\n", True), ("def f():\n", False), ("f = lambda: 0\n", False), ("x = a @ b\n", False))


def pattern(t):
    """pattern, line if the condition is that a line matches a pattern"""
    if t.op != "call":
        return None, None
    f, args = t.a[0], t.a[1].a
    if f.op == "attr" and f.a[1] == "match" and len(args) == 1:
        r = f.a[0]
        if is_call(r, "re.compile") and len(r.a[1].a) == 1:
            r = r.a[1].a[0]
        return r, args[0]
    if is_call(t, "re.match") and len(args) == 2:
        return args
    return None, None


def accepts(p, samples):
    """does a pattern written in the source accept the lines it must?"""
    if not tm.is_const(p) or not isinstance(tm.cval(p), str):
        return False
    try:
        return all(bool(re.match(tm.cval(p), s)) is v for s, v in samples)
    except re.error:
        return False


def from_file(ctx, R, fi, lines, p, fs, objs):
    """are these all lines of the file the object was defined in?"""
    if not is_call(lines, "linecache.getlines"):
        return
    a = lines.a[1].a
    f = a[0]
    ok = False
    for o in objs:
        src, fil = "inspect.getsourcefile(%s)" % o, "inspect.getfile(%s)" % o
        if show(f) == src:
            ok = fs.get(src) is True
        elif show(f) == fil:
            ok = fs.get(src) is False
        if ok:
            break
    ctx.ob(R, fi.qual + " file", ok, "the lines are those of %s" % show(f), fi)
    m = "inspect.getmodule(object, %s)" % show(f)
    if len(a) > 1:
        ctx.ob(R, fi.qual + " loader", show(a[1]) == m + ".__dict__", "the lines are looked up with %s" % show(a[1]), fi)
    else:
        ctx.ob(R, fi.qual + " loader", fs.get(m) is not True, "the lines are looked up without the module's loader", fi)


@rule("E07")
def found_line(ctx):
    R = "E07.search"
    for fi in ctx.funcs(FIND):
        for kind, (pre, code) in KINDS.items():
            ps = ctx.run(fi, names=("object",), keep=lambda k, t, x=None: False, track=lambda t: True, lasting=lambda t: True,
                         raises="none", pre=pre)
            name = "%s (%s)" % (fi.qual, kind)
            seen = set()
            for p in ps:
                if p.ctl == "raise":
                    continue
                if p.val.op != "tuple" or len(p.val.a) != 2:
                    ctx.ob(R, name, False, "returns %s" % show(p.val), fi)
                    continue
                lines, n = p.val.a
                fs = facts(p)
                L = show(lines)
                if any(k.startswith("'' in ") and not v for k, v in fs.items()):
                    continue
                ctx.ob(R, name + " lines", fs.get(L) is True or fs.get("len(%s)" % L) is True or fs.get("0 < len(%s)" % L) is True,
                       "lines are returned without a check that there are any", fi)
                from_file(ctx, R, fi, lines, p, fs, ("object",) if kind == "a class" else ("object", "inspect.getmodule(object)"))
                hit = []
                for k, v in p.facts.items():
                    pat, line = pattern(k)
                    if pat is not None:
                        hit.append((pat, line, v))
                if kind == "a class":
                    seen.add(by_class(ctx, R, name, fi, lines, n, hit, fs))
                else:
                    seen.add(by_code(ctx, R, name, fi, code, lines, n, hit, fs))
            for k in ("outermost", "best") if kind == "a class" else ("found", "not found", "named") + (
                    ("lambda",) if kind in ("a function", "a method") else ()):
                ctx.ob(R, "%s %s" % (name, k), k in seen, "no such line is ever returned", fi)


def by_class(ctx, R, name, fi, lines, n, hit, fs):
    """the line with the definition of a class: one that isn't indented, or that with the least indentation"""
    L = show(lines)
    pats = {show(p) for p, _, _ in hit}
    want = re.compile(r"^fmt\('\^\(\\\\s\*\)class\\\\s[*+]' fv\('', (re\.escape\()?object\.__name__\)?\) '\\\\b'\)$")
    ctx.ob(R, name + " name", bool(pats) and all(want.match(x) for x in pats), "the lines searched for are those with %s" % ", ".join(pats), fi)
    if n.op in ("elem", "idx"):
        at = [show(line) for _, line, v in hit if v]
        here = "%s[%s]" % (L, show(n))
        ok = at == [here] or n.op == "idx" and at == ["elem(%s)" % L]
        top = [k for k, v in fs.items() if v and re.match(r"^(.*)\[0\] == 'c'$|^(.*)\.startswith\('c(lass)?'\)$", k) and k.startswith(tuple(at))]
        bare = [k for k, v in fs.items() if not v and k.endswith(".group(1)") or v and k.endswith(".group(1) == ''")]
        ctx.ob(R, name + " outermost", ok and (top or bare), "line %s is returned, which isn't known to be a definition that isn't indented" %
               show(n), fi)
        return "outermost"
    ok = False
    if n.op == "sub" and n.a[0].op in ("sub", "call", "min"):
        c = n.a[0]
        col = None
        if is_call(c, "builtins.min") and len(c.a[1].a) == 1:
            col = c.a[1].a[0]
        elif c.op == "min" and len(c.a) == 1:
            col = c.a[0]
        elif c.op == "sub" and show(c.a[1]) == "0":
            col = c.a[0]
            if is_call(col, "builtins.sorted") and len(col.a[1].a) == 1 and len(col.a) < 3:
                col = col.a[1].a[0]
            elif col.op == "list" and show(col.a[-1]) == "mut('sort')":
                col = tm.mk("list", *col.a[:-1])
            else:
                col = None
        if col is not None and col.op == "list" and len(col.a) == 1 and col.a[0].op == "each" and col.a[0].a[1].op == "tuple":
            xs = col.a[0].a[1].a
            ok = len(xs) == 2 and re.search(r"\.group\(1\)$|^len\(.*\.group\(1\)\)$|indentsize\(", show(xs[0])) and xs[1].op in ("elem", "idx") and \
                show(n.a[1]) in ("1", "-1")
    ctx.ob(R, name + " best", ok, "line %s is returned, not that of the least indented definition" % show(n), fi)
    return "best"


def by_code(ctx, R, name, fi, code, lines, n, hit, fs):
    """the line a code object starts with, searched backwards from the line it was compiled from"""
    L = show(lines)
    base, k = linear(n)
    C = show(code)
    stdin = fs.get("%s.co_filename == '<stdin>'" % C)
    if stdin is None:
        stdin = next((v for q, v in fs.items() if q.endswith(".co_filename == '<stdin>'")), None)
    want = "len(%s)" % L if stdin else C + ".co_firstlineno"
    ok = list(base.items()) == [(want, 1)] and k <= -1
    ctx.ob(R, name + " start", ok and (stdin is not None), "the line number is %s, not one up to %s - 1" % (show(n), want), fi)
    if not ok:
        return None
    starts, hats = {}, []
    for p, line, v in hit:
        if line.op == "sub" and show(line.a[0]) == L:
            b, j = linear(line.a[1])
            if b == base:
                starts[j] = (p, v)
                continue
            if "elem(range(" in show(line.a[1]) or line.a[1].op == "elem":
                hats.append((p, v, line.a[1]))
                continue
        elif line.op == "elem" and show(line.a[0]).startswith(L):
            hats.append((p, v, line.a[0]))
            continue
        ctx.ob(R, name + " line", False, "line %s is looked at" % show(line), fi)
    up = sum(1 for _, v, _ in hats if v)
    at = k + up if hats else k          # the line that matched, before the decorators were skipped
    named = None
    for q, v in fs.items():
        for side in (" in %s[" % L,):
            if side in q and q.startswith(("object.__name__", "object.__func__.__name__")):
                named = v if named is None or v else named
    lam = [v for q, v in fs.items() if q.startswith(S + "_matchlambda(") or "_matchlambda(" in q]
    for j, (p, v) in starts.items():
        if not stdin:
            ctx.ob(R, name + " starts", accepts(p, STARTS), "the line searched for is one with %s, which isn't where functions start" % show(p), fi)
        ctx.ob(R, name + " order", j >= at, "line %d before the start is looked at after it was found" % (at - j), fi)
    for j in range(at + 1, 0):
        p, v = starts.get(j, (None, None))
        ctx.ob(R, name + " skipped", v is False or (stdin and v is True and (named is not None or lam)),
               "the search goes on above a line without looking at it", fi)
    for p, v, _ in hats:
        ctx.ob(R, name + " decorators", accepts(p, HATS), "the lines skipped are those with %s, not decorators" % show(p), fi)
    p, v = starts.get(at, (None, None))
    if v is not True:
        end = [q for q, b in fs.items() if not b and q.startswith("0 < ")]
        ctx.ob(R, name + " end", bool(end) and v is None, "the search stops at a line that doesn't start a function", fi)
        return "not found"
    if not stdin:
        return "found"
    lamb = [(len(q), v) for q, v in fs.items() if q.endswith(".__name__ == '<lambda>'")]
    lamb = max(lamb)[1] if lamb else None
    if lamb is True:
        end = any(not b and q.startswith("0 < ") for q, b in fs.items())
        ctx.ob(R, name + " lambda", True in lam or end, "the search stops at a line that isn't that of the lambda", fi)
        return "lambda"
    if lamb is False:
        ctx.ob(R, name + " named", named is True, "the search stops at a line that doesn't contain the name of the function", fi)
    return "named"


# ------------------------------------------------------------------ E08: kinds of objects and qualified names
NOT_INSTANCES = ("%s_hascode(object)" % S, "inspect.isclass(object)", "inspect.ismodule(object)", "inspect.istraceback(object)",
                 "inspect.isframe(object)", "inspect.iscode(object)")


def truth(o, want):
    """the result is a condition with the wanted value"""
    vals = {**o.known, **o.extra}

    def same(got):
        ctl, v = got
        flip = False
        while True:
            m = re.match(r"^(?:not (.*)|bool\((.*)\))$", v)
            if v in vals or not m:
                break
            flip, v = flip != (m.group(1) is not None), m.group(1) or m.group(2)
        b = vals.get(v, {"True": True, "False": False}.get(v))
        return ctl == "ret" and b is not None and (b != flip) == bool(want)
    same.__doc__ = "{ret; %s}" % bool(want)
    return same


@rule("E08")
def instances(ctx):
    R = "E08.instance"

    def spec(o):
        def pick(canon, pat):
            v = next((v for k, v in o.known.items() if re.match(pat, k)), None)
            return o(canon) if v is None else v
        if any(o(k) for k in NOT_INSTANCES):
            return truth(o, False)
        mod = o("inspect.getmodule(object)")
        if not mod:
            num = o("inspect.getmodule(type(object)).__name__ == 'numpy'")
            return truth(o, num)
        if not pick("repr(type(object)).startswith(('<class ', \"<type 'instance'>\"))", r"^repr\(type\(object\)\)\.startswith\("):
            return truth(o, False)
        if o("object.__module__ == 'builtins'") or o("object.__module__ == '__builtin__'"):
            return truth(o, False)
        return truth(o, not o("%sgetname(object, True) == 'array'" % S))
    for fi in ctx.funcs(S + "_isinstance"):
        ctx.table(R, fi, ctx.paths(fi, names=("object",)), lambda p: (p.ctl, show(p.val)), spec)
    R = "E08.code"
    for fi in ctx.funcs(S + "_hascode"):
        for p in ctx.paths(fi, names=("object",)):
            f = facts(p)
            a, b = "getattr(object, '__code__', None)", "getattr(object, 'func_code', None)"
            v = show(p.val)
            a2 = "hasattr(object, '__code__')"
            ok = v == a and f.get(a) is not False or v == b and f.get(a) is False or v == "%s or %s" % (a, b) or \
                v in ("True", "False") and f.get(a, f.get(a2)) is (v == "True") or v in (a2, "bool(%s)" % a) or \
                v == "None" and f.get(a) is False
            ctx.ob(R, fi.qual, ok, "what tells code objects is %s" % v, fi)
    R = "E08.types"

    def types(o):
        name = "object"
        if not o("type('') is type(object)"):
            name = "%sgetname(object, True)" % S
        if o("%s == 'ellipsis'" % name):
            name = "'EllipsisType'"
        return truth(o, o("hasattr(types, %s)" % name))
    for fi in ctx.funcs(S + "_intypes"):
        ps = ctx.paths(fi, names=("object",))
        for p in ps:
            for k, v in list(p.facts.items()):
                if show(k) in ("isinstance(object, str)", "str is type(object)", "type(object) is str"):
                    p.facts[tm.mk("is", tm.call(tm.g("builtins.type"), (tm.const(""),)), tm.call(tm.g("builtins.type"), (OBJ,)))] = v
        ctx.table(R, fi, ps, lambda p: (p.ctl, show(p.val)), types)


MODNAME = r"(?:inspect\.getmodule\(obj\)\.__name__|fmt\(fv\('', inspect\.getmodule\(obj\)\)\)\.split\(\)\[1\](?:\.strip\([^()]*\))+)"
CLSTEXT = r"fmt\(fv\('', obj\.__class__\)\)\[slice\(add\(fmt\(fv\('', obj\.__class__\)\)\.index\(\"'\"\), 1\), -2, None\)\]|fmt\(fv\('', obj\.__class__\)\)"


def parts(t):
    """the terms a list is concatenated from: lists of known elements and others"""
    if t.op == "add" or t.op == "binop" and t.a[0] == "Add":
        out = []
        for x in (t.a if t.op == "add" else t.a[1:]):
            out += parts(x)
        return out
    if t.op == "list":
        out = []
        for x in t.a:
            out.append(("all", x.a[0]) if x.op in ("star", "splat") else ("one", x))
        return out
    return [("all", t)]


def grown(p, ps):
    """the parts of the list returned, with what was put into it since"""
    v = show(p.val)
    for e in p.events:
        if e.kind != "call" or e.t.op != "call" or e.t.a[0].op != "attr" or show(e.t.a[0].a[0]) != v:
            continue
        name = e.t.a[0].a[1]
        if name == "append":
            ps = ps + [("one", arg(e.t, 0, "x"))]
        elif name == "insert" and show(arg(e.t, 0, "i")) == "0":
            ps = [("one", arg(e.t, 1, "x"))] + ps
        elif name in ("pop", "remove", "clear", "extend", "insert", "reverse", "sort"):
            ps = ps + [("all", e.t)]
    return ps


@rule("E08")
def namespaces(ctx):
    R = "E08.namespace"
    ellipsis = set()
    for fi in ctx.funcs(S + "_namespace"):
        seen = set()
        for p in ctx.run(fi, names=("obj",), keep=lambda k, t, x=None: k in ("setitem", "raises", "call"), track=lambda t: True, raises="try"):
            if p.ctl == "raise":
                continue
            fs = facts(p)
            v = show(p.val)
            line = p.events[-1].line if p.events else 0
            ps = grown(p, parts(p.val))
            got = [("*" if k == "all" else "") + show(x) for k, x in ps]
            module = re.compile(r"^\*%s\.split\('\.'\)$" % MODNAME)
            own = fs.get("inspect.ismodule(obj)")
            built = [b for k, b in fs.items() if re.match(r"^%s == '(builtins|__builtin__)'$" % MODNAME, k)]
            name = "%sgetname(obj)" % S
            name = name if fs.get(name) is not False else "obj.__name__"
            either = "%sgetname(obj) or obj.__name__" % S
            if len(got) == 1 and module.match(got[0]):
                seen.add("module")
                ctx.ob(R, fi.qual + " module", own is True, "the name of the module is taken for that of an object that isn't one", fi, line)
                continue
            if len(got) == 2 and module.match(got[0]):
                seen.add("named")
                ctx.ob(R, fi.qual + " named", own is False and got[1] in (name, either), "the name is %s" % v, fi, line)
                types = fs.get("%s_intypes(%s)" % (S, got[1]))
                ctx.ob(R, fi.qual + " builtin", built and (True not in built or types is False),
                       "an object of types is looked for in the builtins", fi, line)
                continue
            if got[:1] == ["'types'"] and len(got) == 2 and not got[1].startswith("*"):
                seen.add("types")
                ctx.ob(R, fi.qual + " types", own is False and got[1] in (name, either) and True in built and
                       fs.get("%s_intypes(%s)" % (S, got[1])) is True, "the name is %s" % v, fi, line)
                continue
            if got[:1] == ["'numpy'"]:
                seen.add("numpy")
                text_ = "fmt(fv('', obj))"
                num = [k for k, b in fs.items() if b and re.match(r"^%s == '(inf|nan|Inf|NaN)'$" % re.escape(text_), k)]
                ctx.ob(R, fi.qual + " numpy", num and len(got) == 2 and (got[1] == text_ or num == ["%s == %s" % (text_, got[1])]),
                       "the name is %s" % v, fi, line)
                continue
            # the class of an instance
            seen.add("class")
            cls = re.compile(r"^\*(%s)\.split\('\.'\)$" % CLSTEXT)
            mod = "getattr(obj.__class__, '__module__', None)"
            built = [b for k, b in fs.items() if re.match(r"^%s == '(builtins|__builtin__)'$" % re.escape(mod), k)]
            last = cls.match(got[-1]) is not None
            num = [k for k, b in fs.items() if b and re.match(r"^fmt\(fv\('', obj\)\) == ", k)]
            ctx.ob(R, fi.qual + " class", last and len(got) <= 2 and not num, "the name of a class is %s" % v, fi, line)
            types = [b for k, b in fs.items() if k.startswith(S + "_intypes(") and ("__class__" in k or k == "%s_intypes('EllipsisType')" % S)]
            if len(got) == 1:
                ctx.ob(R, fi.qual + " prefix", built and True not in built, "the module of a builtin class is left out", fi, line)
            elif got[0] == "'types'":
                ctx.ob(R, fi.qual + " prefix", True in built and types == [True], "types is taken for the module of another class", fi, line)
            else:
                ok = got[0] == mod or got[0] in ("'builtins'", "'__builtin__'") and fs.get("%s == %s" % (mod, got[0])) is True
                ctx.ob(R, fi.qual + " prefix", ok and True in built and types == [False], "the module of a class is %s" % got[0], fi, line)
            e = [b for k, b in fs.items() if k.endswith("[-1] == 'ellipsis'")]
            changed = [x for x in p.events if x.kind == "setitem"]
            if changed:
                ok = all(show(x.x.a[0]) == "-1" and show(x.x.a[1]) == "'EllipsisType'" for x in changed) and e == [True]
                ctx.ob(R, fi.qual + " ellipsis", ok, "the name of a class is changed to %s" % [show(x.x) for x in changed], fi, line)
                ellipsis.add(ok)
            elif True in e:
                ellipsis.add("'EllipsisType'" in v)
                ctx.ob(R, fi.qual + " ellipsis", "'EllipsisType'" in v, "the type of Ellipsis is named %s" % v, fi, line)
        for k in ("module", "named", "types", "numpy", "class"):
            ctx.ob(R, "%s %s" % (fi.qual, k), k in seen, "no %s name is ever given" % k, fi)
        ctx.ob(R, fi.qual + " ellipsis", bool(ellipsis), "the type of Ellipsis isn't named EllipsisType", fi)


# ------------------------------------------------------------------ E09: closures
def args_of(c, spec):
    """arguments of a call as (name, text or default)"""
    out = []
    for i, (n, d) in enumerate(spec):
        x = arg(c, i, n)
        out.append(d if x is None else show(x))
    return tuple(out)


SRC_ARGS = (("object", None), ("alias", "''"), ("lstrip", "False"), ("enclosing", "False"), ("force", "False"), ("builtin", "False"))
IMP_ARGS = (("obj", None), ("alias", "''"), ("verify", "True"), ("builtin", "False"), ("enclosing", "False"))
HEAD_ARGS = (("head", None), ("tail", None), ("alias", "''"), ("verify", "True"), ("builtin", "False"))
WAY_ARGS = (("obj", None), ("alias", "''"), ("source", "None"), ("builtin", "True"))


def entries(t):
    """key, value of the entries of a dict"""
    if t.op != "dict":
        return None
    out = []
    for x in t.a:
        if x.op == "each" and len(x.a) == 3:
            out.append((x.a[1], x.a[2]))
        elif x.op == "each" and x.a[1].op == "kv":
            out.append(tuple(x.a[1].a))
        elif x.op == "kv":
            out.append(tuple(x.a))
        else:
            return None
    return out


def variable(t, fv):
    """the name of the free variable whose value the term is"""
    s = show(t)
    m = re.match(r"^(?:popped\(%s, (.*)\)|%s\[(.*)\])$" % (re.escape(fv), re.escape(fv)), s)
    return m and (m.group(1) or m.group(2))


def impossible(fs):
    """a dict or list with an element isn't empty"""
    return any(not v and re.match(r"^(o\('(dict|list)'|[{\[]each\()", k) for k, v in fs.items())


@rule("E09")
def closured_source(ctx):
    R = "E09.source"
    fv = "dill.detect.freevars(func)"
    for fi in ctx.funcs(S + "_closuredsource"):
        seen = set()
        for p in ctx.run(fi, names=("func", "alias"), keep=lambda k, t, x=None: k in ("setitem", "mut", "delitem"), track=lambda t: True):
            if p.ctl == "raise":
                if not p.implicit:
                    ctx.ob(R, fi.qual, False, "fails: %s" % result(p), fi)
                continue
            fs = facts(p)
            es = entries(p.val)
            line = p.events[-1].line if p.events else 0
            if es is None or not es:
                ctx.ob(R, fi.qual, False, "returns %s" % show(p.val), fi, line)
                continue
            if len(es) > 1 and impossible(fs):
                continue
            none = [v for k, v in es if show(k) == "None"]
            ctx.ob(R, fi.qual + " variables", len(none) == 1, "the source of the variables isn't given exactly once", fi, line)
            for v in none:
                ok = v.op == "tuple" and len(v.a) == 2
                t = show(v.a[0]) if ok else ""
                func_ = [b for q, b in fs.items() if q.startswith("inspect.isfunction(")]
                made = [x for x in tm.subterms(v.a[0]) if is_call(x, S + "getsource")] if t.startswith("join('', ") else []
                for x in made:
                    o = args_of(x, SRC_ARGS)
                    name = o[1]
                    good = variable(arg(x, 0, "object"), fv) == name and o[2:5] == ("False", "False", "True") and func_ == [False]
                    ctx.ob(R, fi.qual + " value", good, "the source of variable %s is %s" % (name, show(x)), fi, line)
                    seen.add("variable")
                ok = ok and (t == "join('', %s.values())" % fv or bool(made) or t == "''" and func_ == [True])
                ctx.ob(R, fi.qual + " variables", ok, "the source of the variables is %s" % show(v), fi, line)
                if not ok:
                    continue
                if len(es) > 1:
                    ctx.ob(R, fi.qual + " target", show(v.a[1]) in ("None", "''"), "the source of the function is given twice", fi, line)
                else:
                    ok = is_call(v.a[1], S + "getsource") and args_of(v.a[1], SRC_ARGS)[:5] == ("func", "alias", "True", "False", "True")
                    ctx.ob(R, fi.qual + " target", ok, "the source of a function without functions in its closure is %s" % show(v.a[1]), fi, line)
            for k, v in es:
                if show(k) == "None":
                    continue
                ok = v.op == "tuple" and len(v.a) == 2
                ctx.ob(R, fi.qual + " pair", ok, "the source of a function in the closure is %s" % show(v), fi, line)
                if not ok:
                    continue
                deco = [b for q, b in fs.items() if q.endswith(".lstrip().startswith('@')")]
                a, b = v.a
                if is_call(a, S + "importable"):
                    seen.add("plain")
                    o = args_of(a, WAY_ARGS)
                    ok = variable(arg(a, 0, "obj"), fv) == show(k) == o[1] and o[2] == "None" and deco == [False]
                    ok = ok and is_call(b, S + "getsource") and args_of(b, SRC_ARGS)[:4] == ("func", "alias", "True", "False")
                else:
                    seen.add("decorated")
                    ok = is_call(a, S + "getsource") and args_of(a, SRC_ARGS)[:1] + args_of(a, SRC_ARGS)[2:4] == ("func", "False", "True") and deco == [True]
                    o = args_of(b, WAY_ARGS) if is_call(b, S + "importable") else None
                    ok = ok and o is not None and variable(arg(b, 0, "obj"), fv) == show(k) and o[1:3] == ("alias", "True")
                ctx.ob(R, fi.qual + " function", ok, "the source of function %s of the closure is %s (%s)" % (
                    show(k), show(v), {True: "decorated", False: "not decorated", None: "decorated or not"}[deco[0] if deco else None]), fi, line)
                gone = ("popped(%s, %s)" % (fv, show(k))) in show(p.val) or any(
                    e.kind in ("delitem", "mut") and show(e.t).startswith(fv) for e in p.events)
                ctx.ob(R, fi.qual + " functions", gone or not any(fv + ".values()" in show(x) for x in none),
                       "function %s of the closure is left among the sources of variables" % show(k), fi, line)
            for e in p.events:
                if e.kind == "setitem" and show(e.t) == fv:
                    k, v = e.x.a
                    o = args_of(v, SRC_ARGS) if is_call(v, S + "getsource") else None
                    ok = o is not None and variable(arg(v, 0, "object"), fv) == show(k) == o[1] and o[4] == "True"
                    ctx.ob(R, fi.qual + " value", ok, "the source of variable %s is %s" % (show(k), show(v)), fi, e.line)
                    f = [b for q, b in e.facts.items() if show(q).startswith("inspect.isfunction(")]
                    ctx.ob(R, fi.qual + " kind", f == [False], "the source of a function is taken for that of a variable", fi, e.line)
                    seen.add("variable")
        for k in ("plain", "decorated", "variable"):
            ctx.ob(R, "%s %s" % (fi.qual, k), k in seen, "no source of a %s object is ever given" % k, fi)


@rule("E09")
def closured_import(ctx):
    R = "E09.import"
    fv = "dill.detect.freevars(func)"
    for fi in ctx.funcs(S + "_closuredimport"):
        seen = set()
        for p in ctx.run(fi, names=("func", "alias", "builtin"), keep=lambda k, t, x=None: False, track=lambda t: True):
            if p.ctl == "raise":
                continue
            fs = facts(p)
            es = entries(p.val)
            if es is None or not es:
                ctx.ob(R, fi.qual, False, "returns %s" % show(p.val), fi)
                continue
            if len(es) > 1 and impossible(fs):
                continue
            for k, v in es:
                if is_call(v, S + "getimport"):
                    o = args_of(v, IMP_ARGS)
                    ctx.ob(R, fi.qual + " options", o[1] == "alias" and o[3] == "builtin", "the import is %s" % show(v), fi)
                    if o[0] == "func":
                        seen.add("itself")
                        ctx.ob(R, fi.qual + " itself", is_call(k, S + "getname") and args_of(k, (("obj", None), ("force", "False")))[0] == "func",
                               "the import of the function is given as that of %s" % show(k), fi)
                    else:
                        seen.add("decorated")
                        deco = [b for q, b in fs.items() if q.endswith(".lstrip().startswith('@')")]
                        ctx.ob(R, fi.qual + " decorated", variable(arg(v, 0, "obj"), fv) == show(k) and True in deco,
                               "the import %s is given as that of %s" % (show(v), show(k)), fi)
                    continue
                ok = is_call(v, G)
                ctx.ob(R, fi.qual + " line", ok, "the import is %s" % show(v), fi)
                if not ok:
                    continue
                o = args_of(v, HEAD_ARGS)
                ctx.ob(R, fi.qual + " options", o[2] == "alias" and o[4] == "builtin", "the import is %s" % show(v), fi)
                ctx.ob(R, fi.qual + " name", show(k) == o[1], "the import of %s is given as that of %s" % (o[1], show(k)), fi)
                m = re.match(r"^%sgetname\(inspect\.getmodule\((.*)\)\)$" % re.escape(S), o[0])
                f = re.search(r"%sfindsource\((.*?)\)\[0\]\)" % re.escape(S), o[1])
                ctx.ob(R, fi.qual + " module", m and f and f.group(1) == m.group(1), "the name is imported from %s, it was found in the file of %s" % (
                    o[0], f and f.group(1)), fi)
                seen.add("assigned")
        for k in ("itself", "decorated", "assigned"):
            ctx.ob(R, "%s %s" % (fi.qual, k), k in seen, "no import of a function that is %s is ever given" % k, fi)
