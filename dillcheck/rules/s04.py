"""S04: loading as a dictionary; S05: matching target; S07: the session pickling mode."""
import re

from .. import terms as tm
from ..lib import facts, mutation, result, show, split_g, written
from ..program import AnalysisError
from . import rule
from .c17 import restored, state_ops

S = "dill.session."
D = "dill._dill."


def ab(s):
    """short names for the long terms of load_module and load_module_asdict"""
    s = s.replace("popped(**kwds, 'main')", "module").replace("popped(**kwds, 'main', None)", "module")
    s = s.replace(S + "SESSION_TEMPFILE", "TEMPFILE")
    s = re.sub(r"dill\.session\._safe_open_for_reading\(\w+\)", "F", s)
    s = re.sub(r"dill\.session\._make_peekable\(\w+\)", "FILE", s)
    s = re.sub(r"dill\.session\._identify_module\(FILE(, (main=)?module)?\)", "NAME", s)
    s = s.replace("types.ModuleType(NAME)", "NEW")
    return s


# ------------------------------------------------------------------ S04
def keep4(kind, t, x=None):
    if kind in ("setattr", "delattr", "setitem", "delitem", "mut", "except", "aug"):
        return True
    if kind in ("call", "raises"):
        if x is not None:
            return True
        s = show(t.a[0])
        f = split_g(t.a[0])
        return s in (S + "load_module", "setattr", "delattr", D + "_import_module") or written_call(t) or \
            s.endswith((".load", "_restore_modules"))
    return False


def written_call(t):
    class E:
        pass
    e = E()
    e.kind, e.t, e.x = "call", t, None
    return written(e) is not None


def track4(a):
    s = show(a)
    return "_identify_module" in s or "sys.modules" in s or s in ("update", "hasattr(filename, 'read')") or \
        "_import_module" in s or "_is_imported_module" in s or s.startswith("isinstance(exc")


@rule("S04")
def asdict(ctx):
    for fi in ctx.funcs(S + "load_module_asdict"):
        ps = ctx.run(fi, keep=keep4, raises="all", excev=True, track=track4)
        loads = 0
        for p in ps:
            ops = [o for o in state_ops(p)]
            done = set()
            for pl, v, e, att in ops:
                if att or pl in done:
                    continue
                done.add(pl)
                ctx.ob("S04.restore", "%s changes %s" % (fi.qual, ab(pl)), restored(p, pl, ops),
                       "the path that ends with %s leaves another entry in %s" % (result(p)[:40], ab(pl)), fi, e.line)
            loads += one_asdict(ctx, fi, p)
        if not loads:
            raise AnalysisError("load_module_asdict loads nothing")


def one_asdict(ctx, fi, p):
    f = {ab(k): v for k, v in facts(p).items()}
    runtime = f.get("NAME.startswith('__runtime__.')")
    table, init, n = {}, [], 0
    own = ("NEW", "NEW.__dict__", "vars(NEW)")
    for e in p.events:
        if e.kind == "call" and show(e.t.a[0]) == S + "load_module":
            n += 1
            a = [ab(show(x)) for x in tm.cargs(e.t)]
            kw = {k: ab(show(v)) for k, v in tm.ckw(e.t).items()}
            tgt = kw.get("module", a[1] if len(a) > 1 else None)
            ctx.ob("S04.options", fi.qual, "**=**kwds" in show(e.t), "the options of the caller are lost: %s"
                   % ab(show(e.t)), fi, e.line)
            if runtime:
                ctx.ob("S04.runtime", fi.qual, tgt is None and not table, "a runtime module must be loaded into a new "
                       "module: module=%s, module table %s" % (tgt, table), fi, e.line)
                own = own + (ab(show(e.t)), ab(show(e.t)) + ".__dict__")
            else:
                ctx.ob("S04.temporary", fi.qual, table.get("NAME") == "NEW" and tgt in (None, "NEW"),
                       "the state is not loaded into a temporary module: module table %s, module=%s" % (
                           table or "unchanged", tgt), fi, e.line)
                up = [x for x in init if x[0] == "update"]
                olds = ("sys.modules.get(NAME)", "sys.modules.get(NAME, None)", "sys.modules[NAME]",
                        D + "_import_module(NAME)")
                want = {"update(%s%s)" % (o, s) for o in olds for s in (".__dict__", "")} | {
                    "update(vars(%s))" % o for o in olds}
                got = ["update(%s)" % x[1] for x in up]
                if f.get("update") is True:
                    ctx.ob("S04.update", fi.qual, len(got) == 1 and got[0] in want and (
                        got[0].startswith("update(" + D) or not absent_fact(f)),
                        "with update the dictionary must start from the current module: %s" % (got or "empty"), fi, e.line)
                elif f.get("update") is False:
                    ctx.ob("S04.update", fi.qual, not got, "without update the dictionary must start empty: %s" % got,
                           fi, e.line)
                else:
                    ctx.ob("S04.update", fi.qual, not got, "the update option is not honoured", fi, e.line)
            continue
        w = written(e)
        if w is None:
            continue
        s = ab(show(w))
        if e.kind == "setitem" and s == "sys.modules":
            table[ab(show(e.x.a[0]))] = ab(show(e.x.a[1]))
            continue
        if e.kind == "delitem" and s == "sys.modules" or s == "sys.modules":
            continue
        m, args = mutation(e)
        base = s
        if e.kind in ("setattr", "delattr"):
            base = ab(show(e.t))
        if base.startswith("**kwds") or base == "kwds":
            continue
        if m == "update" and base in own:
            init.append(("update", ab(show(args[0]))))
        fresh = base in own or base in ("NEW.__dict__.copy()",) or w.op in ("dict", "list") or base.startswith("{")
        ctx.ob("S04.writes", fi.qual, fresh, "%s is modified, which is not the temporary module" % base, fi, e.line)
    if p.ctl == "ret":
        r = ab(show(p.val))
        ok = r in own and r != "NEW" or r.startswith(("vars(", "dict(", "{")) or r.endswith((".__dict__", ".copy()"))
        old = any(o in r and not r.startswith(S) for o in ("sys.modules", "_import_module("))
        ctx.ob("S04.result", fi.qual, n == 1 and ok and not old, "the result must be the dictionary of the loaded "
               "module (%d loads): %s" % (n, r), fi)
        ses = [ab(show(e.x.a[1])) for e in p.events if e.kind == "setattr" and tm.is_const(e.x.a[0]) and
               tm.cval(e.x.a[0]) == "__session__"]
        ses += [ab(show(e.x.a[1])) for e in p.events if e.kind == "setitem" and tm.is_const(e.x.a[0]) and
                tm.cval(e.x.a[0]) == "__session__"]
        ok = len(ses) == 1 and ("filename" in ses[0] or "TEMPFILE" in ses[0])
        ctx.ob("S04.session", fi.qual, ok, "__session__ must name the file: %s" % ses, fi)
    return n


def absent_fact(f):
    return any(f.get(k) for k in ("sys.modules.get(NAME) is None", "sys.modules.get(NAME, None) is None")) or \
        f.get("NAME in sys.modules") is False


@rule("S04")
def runtime(ctx):
    """load_module: the runtime entry exists during the load and is gone afterwards"""
    for fi in ctx.funcs(S + "load_module"):
        ps = ctx.run(fi, keep=keep4, raises="all", excev=True, track=track4)
        n = 0
        for p in ps:
            ops = list(state_ops(p))
            done = set()
            for pl, v, e, att in ops:
                if att or pl in done:
                    continue
                done.add(pl)
                n += 1
                ctx.ob("S04.runtime-entry", "%s changes %s" % (fi.qual, "sys.modules" if pl.startswith("sys.modules") else pl),
                       "sys.modules[" in pl and "__runtime__." in pl and restored(p, pl, ops),
                       "the path that ends with %s leaves an entry in the module table" % result(p)[:40], fi, e.line)
        if not n:
            raise AnalysisError("load_module never registers the runtime module")


# ------------------------------------------------------------------ S05
def keep5(kind, t, x=None):
    if kind in ("setattr", "setitem"):
        return True
    if kind == "call":
        s = show(t.a[0])
        return s in ("warnings.warn", D + "Unpickler", S + "_restore_modules", D + "Pickler", S + "_stash_modules",
                     S + "_identify_module") or s.endswith((".load", ".dump"))
    return False


def upval(p, i):
    """(main of the unpickler when event i happens, unpickler)"""
    u = p.events[i].t.a[0].a[0]
    m = tm.attr(u, "_main")
    for e in p.events[:i]:
        if e.kind == "setattr" and e.t == u and tm.is_const(e.x.a[0]) and tm.cval(e.x.a[0]) == "_main":
            m = e.x.a[1]
    return m, u


def ident(p):
    """the module name read from the file, on this path"""
    out = set()
    for k in p.facts:
        for t in tm.subterms(k):
            if t.op == "call" and show(t.a[0]) == S + "_identify_module":
                out.add(t)
    for e in p.events:
        if e.kind == "call" and show(e.t.a[0]) == S + "_identify_module":
            out.add(e.t)
    return sorted(out, key=show)


def target(p, f):
    """what the caller asked for: the term of the module argument"""
    return "popped(**kwds, 'main')" if f.get("'main' in **kwds") else "module"


@rule("S05", also={"S06": ["S05.restore"]})
def load(ctx):
    for fi in ctx.funcs(S + "load_module"):
        ps = ctx.run(fi, keep=keep5, track=lambda a: True)
        n = {"load": 0, "value": 0, "type": 0}
        for p in ps:
            f = facts(p)
            if any(v and k.startswith("hasattr(dill.session.SESSION_TEMPFILE") for k, v in f.items()):
                continue
            old = f.get("'main' in **kwds")
            warned = [e for e in p.events if e.kind == "call" and show(e.t.a[0]) == "warnings.warn"]
            if old:
                both = f.get("module is None") is False
                ctx.ob("S05.renamed", fi.qual, bool(warned), "the old name 'main' is used without a warning", fi)
                ctx.ob("S05.renamed", fi.qual + " (both)", not both or result(p) == "raise TypeError",
                       "both names were given: must raise TypeError, %s" % result(p), fi)
                if both:
                    n["type"] += 1
                    continue
                if p.ctl == "raise" and f.get("module is None") is None:
                    ctx.ob("S05.renamed", fi.qual + " (both)", False, "the new name is not looked at", fi)
            li = [i for i, e in enumerate(p.events) if e.kind == "call" and e.t.a[0].op == "attr" and
                  e.t.a[0].a[1] == "load"]
            N = ident(p)
            if len(N) > 1:
                ctx.ob("S05.identify", fi.qual, False, "the file is identified in two ways", fi)
                continue
            if p.ctl == "raise" and not p.implicit and not li:
                r = result(p)
                if r == "raise ValueError":
                    n["value"] += 1
                    ctx.ob("S05.refuse", fi.qual, N and mismatch(f, None, show(N[0])), "a matching module is refused: %s"
                           % ab(short(f)), fi)
                elif r == "raise TypeError":
                    n["type"] += 1
                    nm = [k for k, v in f.items() if not v and k.startswith("isinstance(") and "ModuleType)" in k]
                    ctx.ob("S05.refuse", fi.qual + " (type)", bool(nm), "a module is refused with a type error: %s"
                           % ab(short(f)), fi)
                continue
            if not li:
                if p.ctl == "ret":
                    ctx.ob("S05.loads", fi.qual, False, "the function returns without loading", fi)
                continue
            n["load"] += 1
            i = li[0]
            M, u = upval(p, i)
            line = p.events[i].line
            ms = show(M)
            ns = show(N[0]) if N else None
            tgt = target(p, f)
            if N:
                a = [show(x) for x in tm.cargs(N[0])] + [show(v) for v in tm.ckw(N[0]).values()]
                ctx.ob("S05.identify", fi.qual, tgt in a, "the module asked for is not passed to _identify_module (%s)"
                       % a[1:], fi, line)
            ctx.ob("S05.options", fi.qual, "**=**kwds" in show(u), "the options of the caller are lost: %s" % ab(show(u)),
                   fi, line)
            ctx.ob("S05.loads", fi.qual, len(li) == 1, "the state is loaded %d times" % len(li), fi, line)
            # checks before the load
            default = ms == show(u) + "._main"
            if not default:
                ctx.ob("S05.type", fi.qual, any(v and k in ("isinstance(%s, types.ModuleType)" % ms,)
                                                for k, v in f.items()) or M.op == "call" and
                       show(M.a[0]) == "types.ModuleType", "the state is loaded into %s, which may be no module" % ab(ms),
                       fi, line)
            if ns is None or f.get("%s is None" % ns) is not True:
                ok = ns is not None and f.get("%s is None" % ns) is False or ns is not None and nonnull(f, ns)
                ctx.ob("S05.guard", fi.qual, ok and agreed(f, ms, ns), "the state is loaded although the kind or name of the "
                       "target and of the saved module were not found equal: %s" % ab(short(f)), fi, line)
            # a module that cannot be imported is in the module table during the load, and only such a module
            reg = [e for e in p.events[:i] if e.kind == "setitem" and show(e.t) == "sys.modules" and
                   "__runtime__." in show(e.x.a[0])]
            im = f.get("%s_is_imported_module(%s)" % (D, ms))
            ok = len(reg) == 1 and show(reg[0].x.a[1]) == ms and show(reg[0].x.a[0]) in [
                w % ms for w in ("fmt('__runtime__.' %s.__name__)", "fmt('__runtime__.' fv('', %s.__name__))",
                                 "add('__runtime__.', %s.__name__)", "'__runtime__.' + %s.__name__")]
            if im is False:
                ctx.ob("S05.registered", fi.qual, ok, "the module is not found under its runtime name during the load: %s"
                       % [ab(show(e.x)) for e in reg], fi, line)
            elif im is True:
                ctx.ob("S05.registered", fi.qual, not reg, "an imported module is registered under a runtime name", fi, line)
            else:
                ctx.ob("S05.registered", fi.qual, False, "whether the module can be imported is not considered", fi, line)
            # the target is the one asked for
            want = derive(f, tgt, ns, show(u))
            ctx.ob("S05.target", fi.qual, ms in want, "asked for %s, the state is loaded into %s instead of %s" % (
                ab(tgt), ab(ms), [ab(w) for w in want]), fi, line)
            # nothing is written to the target before
            w = [e for e in p.events[:i] if e.kind in ("setattr", "setitem") and show(e.t).startswith(ms)
                 and not show(e.t).startswith(show(u)) and not fresh_mod(M)]
            ctx.ob("S05.untouched", fi.qual, not w, "the target is modified before the checks", fi, line)
            if p.ctl == "ret":
                rm = [e for e in p.events[i:] if e.kind == "call" and show(e.t.a[0]) == S + "_restore_modules"]
                ok = len(rm) == 1 and [show(x) for x in tm.cargs(rm[0].t)] == [show(u), ms]
                ctx.ob("S05.restore", fi.qual, ok, "objects saved by reference are not restored into the target", fi, line)
                isarg = f.get("%s is __main__" % ms) or f.get("__main__ is %s" % ms) or \
                    f.get("%s is %s" % tuple(sorted((ms, tgt)))) or f.get("%s is %s" % (ms, tgt)) or ms == tgt
                r = show(p.val)
                ctx.ob("S05.result", fi.qual, r == "None" if isarg else r == ms, "must return %s: returns %s" % (
                    "None" if isarg else "the module", ab(r)), fi, line)
        if min(n.values()) < 1:
            raise AnalysisError("load_module: nothing found for %s" % n)


def old_name(ctx, name, new, argmap):
    """a function of an old name does what the new one does, with the same arguments"""
    R = "S05.old-names"
    params = {}
    for g in ctx.funcs(S + new):
        params = [a.arg for a in g.node.args.posonlyargs + g.node.args.args]
    for fi in ctx.funcs(S + name):
        for p in ctx.run(fi, track=lambda a: True, keep=lambda k, t, x=None: k == "call" and x is None and (
                show(t.a[0]) in (S + new, "warnings.warn"))):
            calls = [e for e in p.events if show(e.t.a[0]) == S + new]
            if p.ctl == "raise":
                ctx.ob(R, fi.qual + " raises", p.implicit, "%s refuses: %s" % (name, result(p)), fi)
                continue
            got = {}
            for e in calls:
                for k, x in zip(params, tm.cargs(e.t)):
                    got[k] = show(x)
                for k, x in tm.ckw(e.t).items():
                    got[k] = show(x)
            opts = calls and "**=**kwds" in show(calls[0].t)
            ctx.ob(R, fi.qual, len(calls) == 1 and opts and {k: got.get(k) for k in argmap} == argmap,
                   "%s must call %s once with %s and the options: %s" % (name, new, argmap, [show(e.t) for e in calls]), fi)
            ctx.ob(R, fi.qual + " warning", any(show(e.t.a[0]) == "warnings.warn" for e in p.events),
                   "the old name is used without a warning", fi)


@rule("S05", "S07")
def old_dump(ctx):
    old_name(ctx, "dump_session", "dump_module", dict(filename="filename", module="main", refimported="byref"))


@rule("S05", "S06")
def old_load(ctx):
    old_name(ctx, "load_session", "load_module", dict(filename="filename", module="main"))


def short(f):
    return ", ".join(("" if v else "not ") + k for k, v in sorted(f.items()) if "filename" not in k
                     and "TEMPFILE," not in k)[:400]


def fresh_mod(M):
    return M.op == "call" and show(M.a[0]) == "types.ModuleType"


def nonnull(f, ns):
    return ("%s.startswith('__runtime__.')" % ns) in f


def runtime_fact(f, ns):
    return f.get("%s.startswith('__runtime__.')" % ns)


def rests(ns):
    return ["%s.partition('.')[-1]" % ns, "%s.partition('.')[2]" % ns, "%s[12:]" % ns,
            "%s.removeprefix('__runtime__.')" % ns, "%s.split('.', 1)[1]" % ns, "%s.split('.', 1)[-1]" % ns,
            "%s[slice(12, None, None)]" % ns, "%s[slice(12, None)]" % ns]


def eqs(f, ms, names):
    for k, v in f.items():
        for x in names:
            if k in ("%s.__name__ == %s" % (ms, x), "%s == %s.__name__" % (x, ms)):
                return v
    return None


def agreed(f, ms, ns):
    rt = runtime_fact(f, ns)
    im = f.get("%s_is_imported_module(%s)" % (D, ms))
    if rt is None or im is None or rt == im:
        return False
    names = rests(ns) if rt else [ns]
    if eqs(f, ms, names):
        return True
    # a module that was just created with the name
    return False


def mismatch(f, ms, ns):
    rt = runtime_fact(f, ns)
    ims = [v for k, v in f.items() if k.startswith(D + "_is_imported_module(")]
    if rt is None or not ims or f.get("%s is None" % ns):
        return False
    if rt == ims[-1]:
        return True
    names = rests(ns) if rt else [ns]
    return any(not v and ".__name__" in k and any(k.endswith(" == " + x) or k.startswith(x + " == ") for x in names)
               for k, v in f.items())


def derive(f, tgt, ns, u):
    """the modules the state may be loaded into for the module argument `tgt`"""
    if f.get("%s is None" % tgt):
        if ns is None or f.get("%s is None" % ns):
            return [u + "._main"]
        base, known_str = ns, True
    else:
        base, known_str = tgt, f.get("isinstance(%s, str)" % tgt)
    if known_str is False:
        return [base]
    rt = f.get("%s.startswith('__runtime__.')" % base)
    if known_str is None:
        return []
    if f.get("isinstance(%s, str)" % base) is False:
        return [base]
    if rt:
        return ["types.ModuleType(%s)" % r for r in rests(base)]
    if rt is False:
        im = "%s_import_module(%s)" % (D, base)
        return [im] if not f.get(im + " is None") else [im, u + "._main"]
    return []


# ------------------------------------------------------------------ S05 / S07 dump
def dump_target(f):
    """term of the module asked for in dump_module"""
    return ["popped(**kwds, 'main', module)", "popped(**kwds, 'main')", "module"]


@rule("S05")
def dump(ctx):
    R = "S05.dump"
    for fi in ctx.funcs(S + "dump_module"):
        n = 0
        for p in ctx.run(fi, keep=keep5, track=lambda a: True):
            f = facts(p)
            warned = sum(e.kind == "call" and show(e.t.a[0]) == "warnings.warn" and "renamed" in show(e.t)
                         for e in p.events)
            use = sum(bool(f.get("'%s' in **kwds" % k)) for k in ("main", "byref"))
            both = any(f.get("'%s' in **kwds" % k) and given(f, v) for k, v in (("main", "module"),
                                                                                ("byref", "refimported")))
            r = result(p)
            if p.ctl == "raise" and p.implicit:
                continue
            n += 1
            if both:
                ctx.ob(R + "-renamed", fi.qual, r == "raise TypeError", "both names of an argument were given: must raise "
                       "TypeError, %s" % r, fi)
                continue
            if p.ctl != "raise":
                ctx.ob(R + "-renamed", fi.qual, warned == use, "%d old names used, %d warnings" % (use, warned), fi)
            dumped = [e for e in p.events if e.kind == "call" and e.t.a[0].op == "attr" and e.t.a[0].a[1] == "dump"]
            mod = [v for k, v in f.items() if k.startswith("isinstance(") and "ModuleType)" in k]
            if r == "raise TypeError":
                ctx.ob(R + "-type", fi.qual, mod == [False], "a module is refused", fi)
            elif dumped:
                main = [show(e.x.a[1]) for e in p.events if e.kind == "setattr" and show(e.x.a[0]) == "'_original_main'"]
                ctx.ob(R + "-type", fi.qual, mod == [True] or mod == [] and main[-1:] == ["__main__"],
                       "something that may be no module is saved", fi)
            elif p.ctl == "ret":
                ctx.ob(R + "-type", fi.qual, False, "nothing is saved", fi)
        if n < 3:
            raise AnalysisError("dump_module: too few paths")


def given(f, name):
    for k in ("locals()['%s']" % name, name):
        if f.get(k) is not None:
            return f[k]
    if f.get("%s is None" % name) is not None:
        return not f["%s is None" % name]
    if f.get("%s is False" % name) is not None:
        return not f["%s is False" % name]
    return False


@rule("S07")
def mode(ctx):
    R = "S07"
    for fi in ctx.funcs(S + "dump_module"):
        n = 0
        for p in ctx.run(fi, keep=keep5, track=lambda a: True):
            f = facts(p)
            for i, e in enumerate(p.events):
                if not (e.kind == "call" and e.t.a[0].op == "attr" and e.t.a[0].a[1] == "dump"):
                    continue
                n += 1
                P = e.t.a[0].a[0]
                at = {}
                for e2 in p.events[:i]:
                    if e2.kind == "setattr" and e2.t == P and tm.is_const(e2.x.a[0]):
                        at[tm.cval(e2.x.a[0])] = show(e2.x.a[1])
                X = show(tm.cargs(e.t)[0])
                stashed = X.startswith(S + "_stash_modules(")
                T = X[len(S + "_stash_modules("):-1] if stashed else X
                want = {"_byref": ("False",), "_recurse": ("False",), "_session": ("True",), "_first_pass": ("True",),
                        "_main": (X,), "_original_main": (T,),
                        "_main_modified": ("not %s is %s" % (X, T), "not %s is %s" % (T, X), "%s is not %s" % (X, T))
                        if stashed else ("False", "not %s is %s" % (X, X))}
                for k, w in sorted(want.items()):
                    got = at.get(k, "unset")
                    if k == "_main_modified" and got not in w:
                        b = [v for kk, v in f.items() if kk in ("%s is %s" % (X, T), "%s is %s" % (T, X))]
                        if b and got == str(not b[0]):
                            got = w[0]
                    ctx.ob(R + ".mode", "%s %s" % (fi.qual, k), got in w, "pickler.%s is %s instead of %s when the session is "
                           "dumped" % (k, got, w[0]), fi, e.line)
                # the pickler
                ps = show(P)
                ok = P.op == "call" and show(P.a[0]) in (D + "Pickler", "dill.Pickler")
                a, kw = ([show(x) for x in tm.cargs(P)], tm.ckw(P)) if ok else ([], {})
                pr = a[1] if len(a) > 1 else show(kw["protocol"]) if "protocol" in kw else None
                ctx.ob(R + ".pickler", fi.qual + " protocol", ok and pr in ("dill.settings.settings['protocol']",
                                                                           "settings['protocol']"),
                       "the session is written with protocol %s instead of the configured one" % pr, fi, e.line)
                ctx.ob(R + ".pickler", fi.qual + " options", "**=**kwds" in ps, "the options of the caller are lost: %s"
                       % ps[:120], fi, e.line)
                # what is dumped
                ref = None
                for k in ("popped(**kwds, 'byref', refimported)", "popped(**kwds, 'byref')", "refimported"):
                    if k in f:
                        ref = f[k]
                        break
                ctx.ob(R + ".refimported", fi.qual, ref is stashed, "with refimported=%s the namespace is %sfiltered"
                       % (ref, "" if stashed else "not "), fi, e.line)
                src = [m for m in dump_target(f)]
                want = []
                for m in src:
                    if f.get("%s is None" % m):
                        want = ["__main__"]
                    elif f.get("isinstance(%s, str)" % m):
                        want = [D + "_import_module(%s)" % m]
                    elif f.get("isinstance(%s, str)" % m) is False:
                        want = [m]
                    if want:
                        break
                ctx.ob(R + ".target", fi.qual, T in want, "asked to save %s, %s is saved" % (want or "?", T), fi, e.line)
                b = [k for k in f if k in ("'main' in **kwds", "'byref' in **kwds")]
        if not n:
            raise AnalysisError("dump_module dumps nothing")
    # how the flag is used
    ctx.floor(R + ".mode", 7)
