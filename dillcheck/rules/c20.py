"""C20: re-pointing loaded instances to main; C21: how modules and their dictionaries are stored."""
import re

from .. import terms as tm
from ..lib import SKIP, TRACK_ALL, facts, fmt_conds, module_level, pops, reduction, result, show
from ..program import AnalysisError
from . import rule

D = "dill._dill."
UP = D + "Unpickler"
LOADED = ("pickle.Unpickler.load(self)", "pickle._Unpickler.load(self)", "super().load()")


@rule("C20")
def load(ctx):
    for fi in ctx.funcs(UP + ".load"):
        n, seen = 0, set()
        for p in ctx.run(fi, ("self",), self_type=UP, track=TRACK_ALL, excev=True, raises="all"):
            f = facts(p)
            ln = p.events[-1].line if p.events else 0
            obj = next((x for x in LOADED if any(show(e.t) == x for e in p.events)), None)

            def ob(ok, msg):
                ctx.ob("C20.load", "%s where %s" % (fi.qual, fmt_conds(f)[:200]), ok, msg, fi, ln)
            if p.ctl == "raise":
                # an exception other than the stock unpickler's own leaves load
                late = [e for e in p.events if e.kind == "raises" and show(e.t) not in LOADED]
                bad = [e for e in late if "getattr" in show(e.t) or e.x is not None] and p.implicit and \
                    show(p.val) in ("exc('AttributeError')", "exc('TypeError')")
                ob(not bad and (p.implicit or "raise" == p.ctl and not [e for e in p.events if e.kind == "raise"]),
                   "re-pointing the class can fail the load")
                continue
            n += 1
            if obj is None:
                ob(False, "the object is not loaded by the stock unpickler")
                continue
            ob(result(p) == "ret " + obj, "the result is %s instead of the loaded object" % result(p))
            mod = "type(%s).__module__" % obj
            eqs = ["getattr(__main__, '__name__', '__main__') == " + mod, mod + " == getattr(__main__, '__name__', '__main__')",
                   mod + " == '__main__'", "'__main__' == " + mod, "__main__.__name__ == " + mod, mod + " == __main__.__name__"]
            inmain = next((f[k] for k in eqs if k in f), None)
            ign = f.get("self._ignore")
            sets = [e for e in p.events if e.kind == "setattr" and show(e.t) == obj]
            tries = [e for e in p.events if e.kind == "raises"]
            exc = [e for e in p.events if e.kind == "except"]
            other = [e for e in p.events if e.kind in ("setattr", "setitem", "delattr", "mut") and show(e.t) != obj]
            ob(not other, "something else is changed: %s" % (show(other[0].t) if other else ""))
            want = "getattr(self._main, type(%s).__name__)" % obj
            if inmain is False or ign is True:
                seen.add("keep")
                ob(not sets and not exc, "the class is replaced although it must be kept")
            elif inmain and ign is False:
                if exc:
                    seen.add("failed")
                    names = set(re.findall(r"\w+", show(exc[0].t)))
                    ob(names & {"Exception", "BaseException"} or {"AttributeError", "TypeError"} <= names or
                       not names, "only %s is tolerated when the class is missing or incompatible" % sorted(names))
                    ob(not [e for e in sets if show(e.x.a[1]) != want], "the class is set to something else")
                else:
                    seen.add("set")
                    vals = [(tm.cval(e.x.a[0]), show(e.x.a[1])) for e in sets]
                    ob(vals == [("__class__", want)] or vals == [("__class__", want.replace(
                        "getattr(", "get(").replace("self._main", "self._main.__dict__"))],
                       "the class is not replaced by the current class of that name in main (%s)" % vals)
            else:
                ob(False, "the result does not depend on the module of the class and on ignore")
        if not {"keep"} <= seen:
            raise AnalysisError("Unpickler.load: cases %s" % sorted(seen))
        ctx.ob("C20.load", fi.qual + " (replaced)", "set" in seen, "the class is never replaced", fi)
        ctx.ob("C20.load", fi.qual + " (tolerant)", "failed" in seen, "a missing or incompatible class fails the load", fi)
    ctx.floor("C20.load", 8)
    # the module the class is looked up in
    c = ctx.prog.classes.get(UP)
    if c is None:
        raise AnalysisError("no class Unpickler")
    for fi in ctx.funcs(UP + ".__init__"):
        for p in ctx.paths(fi, ("self",), self_type=UP):
            if p.ctl == "raise":
                continue
            m = [show(e.x.a[1]) for e in p.events if e.kind == "setattr" and show(e.t) == "self" and
                 tm.cval(e.x.a[0]) == "_main"]
            ctx.ob("C20.main", fi.qual, m == ["__main__"], "the classes are looked up in %s instead of __main__" % m, fi)


# ------------------------------------------------------------------ modules
NAMES = ["base_prefix", "base_exec_prefix", "exec_prefix", "prefix", "real_prefix"]


@rule("C21")
def predicates(ctx):
    for fi in ctx.funcs(D + "_is_imported_module"):
        def spec(A):
            ld = A.any("!getattr(module, '__loader__', None) is None")
            if ld:
                return "ret True"
            v = A.get("module in sys.modules.values()")
            if v is None:
                return "ret module in sys.modules.values()"
            return lambda got: got in ("ret module in sys.modules.values()", "ret %s" % v)
        ctx.table("C21.imported", fi, ctx.paths(fi, ("module",)), result, spec)
    for fi in ctx.funcs(D + "_is_builtin_module"):
        F = "module.__file__"

        def kind(a):
            """which of the tests of the file name a condition is"""
            if all("'%s'" % n in a for n in NAMES) and "startswith" in a and "getattr(sys, " in a:
                return "prefix"
            return None

        RP = "os.path.realpath(%s)"

        def each(known):
            """the prefixes compared one by one: [(condition, outcome)] once one fits or all have been tried"""
            left = False
            for n in NAMES:
                has = known.get("hasattr(sys, '%s')" % n)
                P = "sys." + n
                plain = known.get("%s.startswith(%s)" % (F, P))
                links = known.get("%s.startswith(%s)" % (RP % F, RP % P))
                if has is not False and (plain or links):
                    return [(n, True)]
                left |= has is None or has and not (plain is False and links is False)
            return [] if left else [("", False)]

        def bspec(A):
            # the attribute has been read on a path that tests it, and is missing where reading it fails
            if not any(F in k for k in A.known):
                if not A("hasattr(module, '__file__')"):
                    return "ret True"
            elif A.get("hasattr(module, '__file__')") is False:
                return lambda got: False
            if A(F + " is None"):
                return "ret False"
            pre = [(k, v) for d in (A.known, A.extra) for k, v in d.items() if kind(k)] or each(A.known)
            if any(v for k, v in pre):
                return "ret True"
            ext = A.get(F + ".endswith(dill._dill.EXTENSION_SUFFIXES)")
            site = A.get("'site-packages' in " + F)
            if ext or site:
                return lambda got: got in ("ret True", "ret 'site-packages' in " + F, "ret " + F +
                                           ".endswith(dill._dill.EXTENSION_SUFFIXES)")
            if not pre:
                return lambda got: False

            def last(got):
                """the remaining tests of the file name"""
                g = got[4:]
                parts = {F + ".endswith(dill._dill.EXTENSION_SUFFIXES)", "'site-packages' in " + F}
                left = {x for x, v in zip(sorted(parts), [site, ext]) if v is None}
                if not left:
                    return g == "False" or g in parts
                return g in parts
            return last
        ps = ctx.paths(fi, ("module",), excev=True)
        missing = [p for p in ps if not any(F in k for k in facts(p)) and
                   [show(e.t) for e in p.events if e.kind == "except"] == ["AttributeError"]]
        for p in missing:
            ctx.ob("C21.builtin", fi.qual + " (no file)", result(p) == "ret True", "a module without a file is built in: "
                   + result(p), fi)
        ctx.table("C21.builtin", fi, [p for p in ps if p not in missing], result, bspec)
        txt = " ".join(k for p in ps for k in facts(p)) + " ".join(result(p) for p in ps)
        pre = [k for p in ps for k in facts(p) if kind(k)] or [
            k + v for p in ps for k in facts(p) for v in facts(p)
            if k == "%s.startswith(sys.prefix)" % F and v == "%s.startswith(%s)" % (RP % F, RP % "sys.prefix")]
        ctx.ob("C21.builtin-file", fi.qual, pre and F + ".startswith(" in pre[0], "the file name is not compared with the "
               "prefixes of the interpreter", fi)
        ctx.ob("C21.builtin-file", fi.qual + " (links)", pre and "realpath(%s).startswith(os.path.realpath(" % F in
               pre[0].replace("os.path.realpath(module", "realpath(module"), "symbolic links in the prefixes are not resolved", fi)
        ctx.ob("C21.builtin-file", fi.qual + " (extensions)", F + ".endswith(dill._dill.EXTENSION_SUFFIXES)" in txt,
               "extension modules are not recognised", fi)
        ctx.ob("C21.builtin-file", fi.qual + " (installed)", "'site-packages' in " + F in txt,
               "installed modules are not recognised", fi)


BI = D + "_is_builtin_module(obj)"
IM = D + "_is_imported_module(obj)"


@rule("C21")
def module(ctx):
    for fi in ctx.funcs(D + "save_module"):
        n = 0
        for p in ctx.paths(fi, ("pickler", "obj")):
            if p.ctl == "raise" and p.implicit:
                continue
            f = facts(p)
            n += 1
            ln = p.events[-1].line if p.events else 0

            def ob(ok, msg):
                ctx.ob("C21.module", "%s where %s" % (fi.qual, fmt_conds(f)[:200]), ok, msg, fi, ln)
            reds = [r for r in (reduction(e) for e in p.events) if r]
            ops = pops(p)
            names = [k for k in ("builtins", "dill", "dill._dill") if f.get("obj.__name__ == '%s'" % k)]
            notn = all(f.get("obj.__name__ == '%s'" % k) is False for k in ("builtins", "dill", "dill._dill"))
            isd = f.get("dill._dill.is_dill(pickler, True)")
            ismain = f.get("obj is pickler._main")
            main = isd is True and ismain is True
            notmain = isd is False or ismain is False
            bi = f.get(BI)
            if len(ops) != 1:
                ob(False, "the module is stored %d times" % len(ops))
                continue
            stored = bool(reds) and reds[0]["state"] is not tm.NONE
            if main or (notn and bi is False):
                ob(stored, "the module is stored without its state")
                if not stored:
                    continue
                r = reds[0]
                ob(show(r["func"]) == D + "_import_module", "it is rebuilt by %s" % show(r["func"]))
                im = f.get(IM)
                a = show(r["args"])
                rt = ("(fmt('__runtime__.' fv('', obj.__name__)),)",)
                ob(im is not None and (a == "(obj.__name__,)" if im else a in rt), "it is stored under the name %s%s" % (
                    a, "" if im else " although it cannot be imported"))
                ob(show(r["obj"]) == "obj", "it is not memoised as the module")
                st = show(r["state"])
                ob(st.startswith(("{**obj.__dict__,", "{**vars(obj),")) or "for" in st or "each(" in st, "the state is %s" % st)
                for k in ("__builtins__", "__loader__"):
                    ob("del('%s')" % k in st or "[" in st and k in st, "the state contains %s" % k)
                extra = set(re.findall(r"del\('(\w+)'\)", st)) - {"__builtins__", "__loader__"}
                ob(not extra, "the state lacks %s" % sorted(extra))
                if re.search(r"del\((?!')", st):
                    # names only some shells define: dropped if they are the shell's, not the user's
                    ob("IPYTHON_SINGLETONS" in st and any(
                        v and ".startswith('IPython')" in k for k, v in f.items()),
                       "a name is dropped whatever it stands for: %s" % st[-200:])
            elif notmain and (names or bi):
                ob(not stored, "a module that must be stored by reference is stored with its state")
                if "dill._dill" in names:
                    ob(ops in (["global obj name='_dill'"], ["reduce dill._dill._import_module (obj.__name__,) obj=obj"],
                               ["reduce dill._dill._import_module ('dill._dill',) obj=obj"]),
                       "dill itself is stored as %s" % ops)
                else:
                    ob(ops == ["reduce dill._dill._import_module (obj.__name__,) obj=obj"] or
                       bool(names) and ops == ["reduce dill._dill._import_module ('%s',) obj=obj" % names[0]],
                       "the reference is %s" % ops)
            else:
                ob(False, "how the module is stored does not depend on its name, its file and the module being saved")
        if n < 8:
            raise AnalysisError("save_module: %d paths" % n)
    ctx.floor("C21.module", 60)


@rule("C21")
def module_dict(ctx):
    isd = ("dill._dill.is_dill(pickler, False)", "dill._dill.is_dill(pickler, child=False)")
    TAB = ("getattr(sys.modules.get(obj['__name__']), '__dict__', None) is obj",
           "getattr(sys.modules.get(obj['__name__'], None), '__dict__', None) is obj",
           "getattr(get(sys.modules, obj['__name__'], None), '__dict__', None) is obj",
           "get(sys.modules, obj['__name__'], None).__dict__ is obj",
           "sys.modules[obj['__name__']].__dict__ is obj")
    STR = ("str is type(obj['__name__'])", "type(obj['__name__']) is str", "isinstance(obj['__name__'], str)",
           "type(obj['__name__']) == str", "str == type(obj['__name__'])")
    for fi in ctx.funcs(D + "save_module_dict"):
        def spec(A):
            d = A.any(*isd)
            if d and A("obj is pickler._main.__dict__"):
                if not (A("pickler._session") and A("pickler._first_pass")):
                    return [r"write b'c__builtin__\n__main__\n'"]
            if not d and A("__main__.__dict__ is obj"):
                return [r"write b'c__main__\n__dict__\n'"]
            if A("'__name__' in obj") and not A("__main__.__dict__ is obj") and A.any(*STR) and A.any(*TAB):
                return [r"write bfmt('c', fv('', obj['__name__']), '\n__dict__\n')"]
            out = ["save_dict obj"]
            if d and A("pickler._session"):
                out.insert(0, "first pass over")
            return out

        def outcome(p):
            from ..lib import pickler_op
            out = []
            for e in p.events:
                if e.kind == "setattr" and show(e.t) == "pickler":
                    out.append("first pass over" if tm.cval(e.x.a[0]) == "_first_pass" and show(e.x.a[1]) == "False"
                               else "sets %s" % tm.cval(e.x.a[0]))
                o = pickler_op(e)
                if o is not None:
                    out.append(o)
            return out
        ctx.table("C21.dict", fi, ctx.paths(fi, ("pickler", "obj")), outcome, spec)
    ctx.floor("C21.dict", 10)
