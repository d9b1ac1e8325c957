"""D07: dill.types holds the types that load_types was asked for; older names of functions are the functions they stand for."""
import re

from .. import terms as tm
from ..lib import facts, mutation, show
from . import rule
from .d03 import arg, is_call

O = "dill._objects."
SETS = {"succeeds": "pickleable", "failures": "unpickleable"}
TYPES = "dill.objtypes.__dict__"


def changes(p):
    """(what, set of objects or name, event) for each change of dill.objects, of the types, and for the reload"""
    for e in p.events:
        t = show(e.t)
        if t in ("dill.objects", TYPES, "vars(dill.objtypes)"):
            where = "objects" if t == "dill.objects" else "types"
            if e.kind == "setitem":
                k, v = (show(x) for x in e.x.a)
                m = re.match(r"^%s(\w+)\[(.*)\]$|^elem\(%s(\w+)\.(?:items|values)\(\)\)" % (re.escape(O), re.escape(O)), v)
                yield where, "add", (m and O + (m.group(1) or m.group(3))) or v, e
            elif e.kind == "delitem":
                yield where, "remove", show(e.x) if e.x is not None else "", e
            elif e.kind == "mut":
                name, args = mutation(e)
                yield where, {"update": "add", "pop": "remove"}.get(name, name), ", ".join(show(a) for a in args), e
        elif e.kind == "delattr" and t == "dill.objtypes":
            yield "types", "remove", show(e.x), e
        elif e.kind == "call" and is_call(e.t, "importlib.reload"):
            yield "types", "reload", show(tm.cargs(e.t)[0]), e


def belongs(text):
    """the registry a changed element is taken from"""
    m = re.match(r"^(?:elem\()?%s(\w+?)\b" % re.escape(O), text)
    return m and m.group(1)


@rule("D07")
def load_types(ctx):
    R = "D07.types"
    for fi in ctx.funcs("dill.load_types"):
        done = set()
        for p in ctx.run(fi, names=("pickleable", "unpickleable"), keep=lambda k, t, x=None: k in ("mut", "setitem", "delitem", "delattr", "call"),
                         track=lambda t: True):
            if p.ctl == "raise":
                if not p.implicit:
                    ctx.ob(R, fi.qual, False, "fails", fi)
                continue
            fs = facts(p)
            line = p.events[-1].line if p.events else fi.node.lineno
            got = {}
            reloaded = False
            for where, how, what, e in changes(p):
                if where == "objects":
                    s = belongs(what)
                    ctx.ob(R, fi.qual + " objects", s in ("succeeds", "failures", "registered") and how in ("add", "remove"),
                           "dill.objects is changed: %s %s" % (how, what), fi, e.line)
                    ctx.ob(R, fi.qual + " before", not reloaded, "dill.objects is changed after the types were set", fi, e.line)
                    if how == "remove":
                        ctx.ob(R, fi.qual + " missing", what.endswith(", None") or e.kind == "mut" and "," in what or has(fs, what),
                               "a type that isn't there can't be removed", fi, e.line)
                    got.setdefault(s, []).append(how)
                elif how == "reload":
                    reloaded = True
                    ctx.ob(R, fi.qual + " reload", what == "dill.objtypes", "%s is loaded again" % what, fi, e.line)
                else:
                    k = what.split(", ")[0]
                    ok = how == "remove" and typed(fs, k) is True and not reloaded
                    ctx.ob(R, fi.qual + " emptied", ok, "dill.types: %s %s" % (how, what), fi, e.line)
                    done.add("emptied")
            if any(v is False and k.startswith(("loop(", "len(")) for k, v in fs.items()):
                continue
            for s, option in SETS.items():
                asked = fs.get(option)
                want = {True: ["add"], False: ["remove"]}.get(asked)
                if any(not b and re.match(r"^(elem\(%s%s.*) in dill\.objects$" % (re.escape(O), s), k) for k, b in fs.items()):
                    want = None if asked else got.get(s)        # it isn't there
                    if not asked and want is None:
                        continue
                ctx.ob(R, "%s %s" % (fi.qual, s), want is not None and got.get(s) == want,
                       "with %s %s the types in %s are: %s" % (option, asked, s, got.get(s)), fi, line)
                done.add((s, asked))
            ctx.ob(R, fi.qual + " registered", got.get("registered") == ["add"], "the types dill registers are: %s" % got.get("registered"),
                   fi, line)
            hows = [belongs(w) for where, how, w, e in changes(p) if where == "objects"]
            ctx.ob(R, fi.qual + " last", hows[-1:] == ["registered"] or "remove" not in [
                h for where, h, w, e in changes(p) if where == "objects"], "types that dill registers are removed again", fi, line)
            ctx.ob(R, fi.qual + " reloaded", reloaded, "the types aren't loaded again", fi, line)
        ctx.ob(R, fi.qual + " emptied", "emptied" in done, "the types found before stay in dill.types", fi)
        for s in SETS:
            ctx.ob(R, "%s %s" % (fi.qual, s), {(s, True), (s, False)} <= done, "%s isn't decided by %s" % (s, SETS[s]), fi)


def has(fs, k):
    return any(b and key.endswith(" in dill.objects") for key, b in fs.items())


def typed(fs, k):
    """a name with 'Type' in it"""
    for key, b in fs.items():
        if key in ("%s.find('Type') == -1" % k, "%s.find('Type') < 0" % k, "%s.count('Type') == 0" % k):
            return not b
        if key in ("'Type' in %s" % k, "0 <= %s.find('Type')" % k, "%s.count('Type')" % k, "-1 < %s.find('Type')" % k):
            return b
    return None


# ------------------------------------------------------------------ older names
S = "dill.source."
OLD = {
    "getimportable": (("obj", "alias", "byname", "explicit"), S + "importable", {0: "obj", 1: "alias", "source": "not byname", "builtin": "explicit"},
                      ("obj", "alias", "source", "builtin")),
    "likely_import": (("obj", "passive", "explicit"), S + "getimport", {0: "obj", "verify": "not passive", "builtin": "explicit"},
                      ("obj", "alias", "verify", "builtin", "enclosing")),
    "_likely_import": (("first", "last", "passive", "explicit"), S + "_getimport",
                       {0: "first", 1: "last", "verify": "not passive", "builtin": "explicit"},
                       ("head", "tail", "alias", "verify", "builtin")),
}
DEFAULTS = {"alias": "''", "enclosing": "False"}


@rule("D07")
def older(ctx):
    R = "D07.older"
    for name, (ps, f, want, names) in OLD.items():
        for fi in ctx.funcs(S + name):
            for p in ctx.run(fi, names=ps, keep=lambda k, t, x=None: False, track=lambda t: show(t) in ("byname", "passive")):
                if p.ctl == "raise":
                    continue
                fs = facts(p)
                ok = is_call(p.val, f)
                got = {}
                if ok:
                    for i, n in enumerate(names):
                        x = arg(p.val, i, n)
                        if x is not None and show(x) != DEFAULTS.get(n):
                            got[n] = show(x)
                    if "verify" in names:
                        got.setdefault("verify", "True")
                exp = {names[k] if isinstance(k, int) else k: v for k, v in want.items()}
                for n, v in exp.items():
                    if v.startswith("not ") and got.get(n) in ("True", "False"):
                        got[n] = v if fs.get(v[4:]) is (got[n] == "False") else got[n]
                ctx.ob(R, fi.qual, ok and got == exp, "%s(%s) stands for %s" % (name, ", ".join(ps), show(p.val)), fi)
