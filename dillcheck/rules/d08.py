"""D08: the names dill exports are there, and every call that was possible still is, with the same parameters and defaults."""
import ast

from .. import terms as tm
from ..lib import show
from . import rule

# module -> names it exports
NAMES = {
    "dill": "dump dumps load loads copy Pickler Unpickler register pickle pickles check DEFAULT_PROTOCOL HIGHEST_PROTOCOL "
            "HANDLE_FMODE CONTENTS_FMODE FILE_FMODE PickleError PickleWarning PicklingError PicklingWarning UnpicklingError "
            "UnpicklingWarning dump_module load_module load_module_asdict dump_session load_session detect logger session source "
            "temp settings objects types load_types extend license citation",
    "dill._dill": "dump dumps load loads copy Pickler Unpickler register pickle pickles check DEFAULT_PROTOCOL HIGHEST_PROTOCOL "
                  "HANDLE_FMODE CONTENTS_FMODE FILE_FMODE PickleError PickleWarning PicklingError PicklingWarning "
                  "UnpicklingError UnpicklingWarning",
    "dill.detect": "baditems badobjects badtypes code errors freevars getmodule globalvars nestedcode nestedglobals outermost "
                   "referredglobals referrednested trace varnames at parent reference",
    "dill.pointers": "parent reference at parents children",
    "dill.session": "dump_module load_module load_module_asdict dump_session load_session",
    "dill.settings": "settings",
    "dill.source": "findsource getsourcelines getsource indent outdent _wrap dumpsource getname _namespace getimport _importable "
                   "importable isdynamic isfrommain getimportable likely_import _likely_import",
    "dill.temp": "dump_source dump dumpIO_source dumpIO load_source load loadIO_source loadIO capture",
    "dill.logger": "adapter logger trace",
}

SIGS = """
dill.dump(obj, file, protocol=None, byref=None, fmode=None, recurse=None, **kwds)
dill.dumps(obj, protocol=None, byref=None, fmode=None, recurse=None, **kwds)
dill.load(file, ignore=None, **kwds)
dill.loads(str, ignore=None, **kwds)
dill.copy(obj, *args, **kwds)
dill.check(obj, *args, **kwds)
dill.pickles(obj, exact=False, safe=False, **kwds)
dill.pickle(t, func)
dill.register(t)
dill.extend(use_dill=True)
dill.load_types(pickleable=True, unpickleable=True)
dill.dump_module(filename=None, module=None, refimported=False, **kwds)
dill.load_module(filename=None, module=None, **kwds)
dill.load_module_asdict(filename=None, update=False, **kwds)
dill.dump_session(filename=None, main=None, byref=False, **kwds)
dill.load_session(filename=None, main=None, **kwds)
dill.detect.baditems(obj, exact=False, safe=False)
dill.detect.badobjects(obj, depth=0, exact=False, safe=False)
dill.detect.badtypes(obj, depth=0, exact=False, safe=False)
dill.detect.errors(obj, depth=0, exact=False, safe=False)
dill.detect.code(func)
dill.detect.freevars(func)
dill.detect.varnames(func)
dill.detect.outermost(func)
dill.detect.getmodule(object, _filename=None, force=False)
dill.detect.globalvars(func, recurse=True, builtin=False)
dill.detect.referredglobals(func, recurse=True, builtin=False)
dill.detect.nestedcode(func, recurse=True)
dill.detect.nestedglobals(func, recurse=True)
dill.detect.referrednested(func, recurse=True)
dill.detect.trace(arg=None, *, mode='a')
dill.pointers.parent(obj, objtype, ignore=())
dill.pointers.parents(obj, objtype, depth=1, ignore=())
dill.pointers.children(obj, objtype, depth=1, ignore=())
dill.pointers.reference(obj)
dill.pointers.at(address, module=None)
dill.source.findsource(object)
dill.source.getsourcelines(object, lstrip=False, enclosing=False)
dill.source.getsource(object, alias='', lstrip=False, enclosing=False, force=False, builtin=False)
dill.source.getblocks(object, lstrip=False, enclosing=False, locate=False)
dill.source.indent(code, spaces=4)
dill.source.outdent(code, spaces=None, all=True)
dill.source.dumpsource(object, alias='', new=False, enclose=True)
dill.source.getname(obj, force=False, fqn=False)
dill.source.getimport(obj, alias='', verify=True, builtin=False, enclosing=False)
dill.source.importable(obj, alias='', source=None, builtin=True)
dill.source.getimportable(obj, alias='', byname=True, explicit=False)
dill.source.likely_import(obj, passive=False, explicit=False)
dill.source.isdynamic(obj)
dill.source.isfrommain(obj)
dill.temp.dump(object, **kwds)
dill.temp.dump_source(object, **kwds)
dill.temp.dumpIO(object, **kwds)
dill.temp.dumpIO_source(object, **kwds)
dill.temp.load(file, **kwds)
dill.temp.load_source(file, **kwds)
dill.temp.loadIO(buffer, **kwds)
dill.temp.loadIO_source(buffer, **kwds)
dill.temp.capture(stream='stdout')
dill.logger.trace(arg=None, *, mode='a')
dill._dill.Pickler.__init__(self, file, *args, **kwds)
dill._dill.Pickler.save(self, obj, save_persistent_id=True)
dill._dill.Pickler.dump(self, obj)
dill._dill.Unpickler.__init__(self, *args, **kwds)
dill._dill.Unpickler.find_class(self, module, name)
dill._dill.Unpickler.load(self)
""".split("\n")

CONSTS = {"HANDLE_FMODE": 0, "CONTENTS_FMODE": 1, "FILE_FMODE": 2}


def literal(ctx, mod, n, depth=0):
    """value of a default: a constant, also by way of a name of the module that is bound once"""
    if n is None:
        return None
    try:
        v = ast.literal_eval(n)
        return repr(v) if v or not isinstance(v, (tuple, list, dict, set)) else "empty"
    except ValueError:
        pass
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("set", "frozenset", "tuple", "list", "dict") and \
            not n.args and not n.keywords:
        return "empty"
    m = ctx.prog.modules.get(mod)
    if isinstance(n, ast.Name) and m is not None and depth < 3:
        for kind, node in m.bindings.get(n.id, ()):
            if kind == "assign" and len(m.bindings[n.id]) == 1 and isinstance(node, ast.expr):
                return literal(ctx, mod, node, depth + 1)
    return ast.unparse(n)


def replaced(ctx, fi, nm, want):
    """is None, given for the parameter, replaced by this value?"""
    for n in ast.walk(fi.node):
        t = None
        if isinstance(n, ast.If) and len(n.body) == 1 and isinstance(n.body[0], ast.Assign):
            t, a, v = n.test, n.body[0].targets[0], n.body[0].value
        elif isinstance(n, ast.Assign) and isinstance(n.value, ast.IfExp):
            t, a, v = n.value.test, n.targets[0], n.value.body
            if isinstance(t, ast.Compare) and isinstance(t.ops[0], ast.IsNot):
                v = n.value.orelse
        if t is not None and isinstance(a, ast.Name) and a.id == nm and isinstance(t, ast.Compare) and \
                isinstance(t.left, ast.Name) and t.left.id == nm and isinstance(t.ops[0], (ast.Is, ast.IsNot)) and \
                literal(ctx, fi.module, t.comparators[0]) == "None" and literal(ctx, fi.module, v) == want:
            return True
    return False


def params(ctx, a, mod):
    pos = a.posonlyargs + a.args
    d = [None] * (len(pos) - len(a.defaults)) + a.defaults
    return [(x.arg, literal(ctx, mod, y)) for x, y in zip(pos, d)], {
        x.arg: literal(ctx, mod, y) for x, y in zip(a.kwonlyargs, a.kw_defaults)}


def found(ctx, qual):
    """the functions a public name stands for"""
    fs = ctx.prog.funcs.get(qual)
    if fs:
        return fs
    base, _, nm = qual.rpartition(".")
    if base in ctx.prog.modules:
        t = ctx.prog.dotted(base, nm)
        if t is not None and t.op == "g":
            return ctx.prog.funcs.get(t.a[0]) or []
    if base in ctx.prog.classes:
        fi = ctx.prog.method(base, nm)
        return [fi] if fi is not None and hasattr(fi, "node") else []
    return []


@rule("D08")
def signatures(ctx):
    R = "D08.call"
    for line in SIGS:
        if not line:
            continue
        qual = line.partition("(")[0]
        want = ast.parse("def f%s: pass" % line[len(qual):]).body[0].args
        fs = found(ctx, qual)
        ctx.ob(R, qual, bool(fs), "is no function of this tree", None)
        for fi in fs:
            ctx.nfuncs.add(fi.qual)
            ctx.nsites += 1
            a = fi.node.args
            wp, wk = params(ctx, want, fi.module)
            gp, gk = params(ctx, a, fi.module)
            posonly = {x.arg for x in a.posonlyargs}
            bad = []
            for i, (nm, d) in enumerate(wp):
                if i >= len(gp):
                    if not (a.vararg and (a.kwarg or nm == "self")):
                        bad.append("parameter %s is missing at position %d" % (nm, i + 1))
                    continue
                if nm == "self":
                    continue
                if gp[i][0] != nm or nm in posonly:
                    bad.append("parameter %d is %s and not %s" % (i + 1, gp[i][0], nm))
                elif d is not None and gp[i][1] != d and not (gp[i][1] == "None" and d != "None" and replaced(ctx, fi, nm, d)):
                    bad.append("%s defaults to %s and not to %s" % (nm, gp[i][1], d))
            for nm, d in gp[len(wp):]:
                if d is None:
                    bad.append("%s has to be given" % nm)
            for nm, d in wk.items():
                now = gk.get(nm, dict(gp).get(nm))
                if now != d and not (now == "None" and replaced(ctx, fi, nm, d)):
                    bad.append("%s defaults to %s and not to %s" % (nm, now, d))
            for nm, d in gk.items():
                if nm not in wk and d is None:
                    bad.append("%s has to be given" % nm)
            if want.vararg and not a.vararg and len(gp) <= len(wp):
                bad.append("further arguments are refused")
            if want.kwarg and not a.kwarg:
                bad.append("further keywords are refused")
            ctx.ob(R, qual, not bad, "%s: calls that were possible mean something else: %s" % (qual, "; ".join(bad)), fi)
    ctx.floor(R, 120)


@rule("D08")
def exported(ctx):
    R = "D08.names"
    for mod, names in NAMES.items():
        m = ctx.prog.modules.get(mod)
        ctx.ob(R, mod, m is not None, "there is no such module")
        if m is None:
            continue
        for nm in names.split():
            ok = nm in m.bindings
            ctx.ob(R, "%s.%s" % (mod, nm), ok, "%s.%s is not defined" % (mod, nm))
            if mod == "dill" and ok and nm in NAMES["dill._dill"].split():
                a, b = ctx.prog.dotted("dill", nm), ctx.prog.dotted("dill._dill", nm)
                ctx.ob(R, "dill.%s (same)" % nm, a is b, "dill.%s is %s" % (nm, show(a) if a is not None else a))
            if nm in CONSTS and mod == "dill._dill":
                t = ctx.prog.dotted(mod, nm)
                ctx.ob(R, "%s (value)" % nm, t is not None and tm.is_const(t) and tm.cval(t) == CONSTS[nm],
                       "%s is %s and not %d: pickles hold the number" % (nm, show(t) if t is not None else t, CONSTS[nm]))
    ctx.floor(R, 100)
