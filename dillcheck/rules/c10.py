"""C10: one memoised value per saved object."""
import ast

from .. import terms as tm
from ..lib import STOCK, handlers, is_helper, is_stock, pickler_op, run_with_closures, show
from ..program import AnalysisError
from . import rule

D = "dill._dill."


def effect(e, savers):
    """('push', label) / ('pop',) / ('reg', label) / ('bad', text) / None"""
    o = pickler_op(e)
    if o is None:
        if e.kind != "call":
            return None
        f, args, kw = e.t.a[0], tm.cargs(e.t), tm.ckw(e.t)
        if f.op == "g" and f.a[0] in savers and args and show(args[0]) == "pickler":
            return ("push", show(args[1]) if len(args) > 1 else show(kw.get("obj")), True)
        if f.op == "g" and f.a[0].rpartition(".")[0] in STOCK and \
                f.a[0].rpartition(".")[2].startswith("save") and args and show(args[0]) == "pickler":
            return ("push", show(args[1]) if len(args) > 1 else "-", True)
        if f.op == "attr" and is_stock(f.a[0]) and f.a[1].startswith("save") and args and \
                show(args[0]) == "pickler":
            return ("push", show(args[1]) if len(args) > 1 else "-", True)
        if f.op == "attr" and show(f.a[0]) == "pickler" and f.a[1].startswith("save"):
            return ("push", show(args[0]) if args else "-", True)
        if f.op == "attr" and f.a[1] == "write" and show(f.a[0]) in (
                "pickler.framer", "pickler._file", "pickler._file_write"):
            return ("bad", "bytes written past the pickler: " + show(e.t))
        return None
    kind, _, rest = o.partition(" ")
    if kind in ("reduce", "reduce+"):
        kw = tm.ckw(e.t)
        obj = kw.get("obj")
        if obj is None and e.t.a[0].op == "g" and len(tm.cargs(e.t)) > 3:
            obj = tm.cargs(e.t)[3]
        lab = show(obj) if obj is not None and obj is not tm.NONE else None
        return ("push", lab, lab is not None)
    if kind == "global":
        args = tm.cargs(e.t)
        f = e.t.a[0]
        i = 1 if (f.op == "g" or is_stock(f.a[0])) else 0
        return ("push", show(args[i]) if len(args) > i else show(tm.ckw(e.t).get("obj")), True)
    if kind == "save":
        return ("push", rest, True)
    if kind in ("save_dict", "save_tuple"):
        return ("push", rest, True)
    if kind == "memoize":
        return ("reg", rest)
    if kind.startswith("_batch_") or kind in ("get", "put"):
        return None
    if kind == "write":
        if rest == "pickle.POP":
            return ("pop",)
        if rest.startswith(("get(pickler, ", "pickler.get(")):
            return ("push", "memo", False)
        if "pickle.GLOBAL" in rest or rest.startswith(("b'c", 'b"c', "bytes('c", 'bytes("c', "fmt('c", "bfmt('c", "enc(",
                                                       "'c")):
            return ("push", "*global*", True)
        if "encode(" in rest or "bytes(" in rest or "'c%s" in rest:
            if "'c" in rest or '"c' in rest:
                return ("push", "*global*", True)
        return ("bad", "unknown opcode written: " + rest[:80])
    return None


def simulate(ctx, rule_, name, fi, p, savers, want="obj"):
    line = p.events[-1].line if p.events else fi.node.lineno
    stack, groups = [], []
    saved_at = None
    for e in p.events:
        # loops must be neutral: remember the depth at which each loop was entered
        while groups and (len(e.loops) < len(groups) or e.loops[:len(groups)] != tuple(
                x for x, _ in groups)):
            lp, d = groups.pop()
            ctx.ob(rule_, name + " (loop)", len(stack) == d,
                   "one iteration of %s leaves %+d values on the stack" % (lp, len(stack) - d), fi, e.line)
        while len(groups) < len(e.loops):
            groups.append((e.loops[len(groups)], len(stack)))
        x = effect(e, savers)
        if x is None:
            continue
        if x[0] == "bad":
            ctx.ob(rule_, name, False, x[1], fi, e.line)
            return
        if x[0] == "push":
            stack.append(x)
        elif x[0] == "pop":
            if not stack:
                ctx.ob(rule_, name, False, "a pop without a value to discard", fi, e.line)
                return
            top = stack.pop()
            if top[1] == want:
                ctx.ob(rule_, name, False, "the saved object itself is popped off the stack", fi, e.line)
                return
        elif x[0] == "reg" and stack:
            t = stack.pop()
            stack.append(("push", x[1], True))
    for lp, d in reversed(groups):
        ctx.ob(rule_, name + " (loop)", len(stack) == d,
               "one iteration of %s leaves %+d values on the stack" % (lp, len(stack) - d), fi, line)
    if len(stack) != 1:
        ctx.ob(rule_, name, False, "a path leaves %d values on the stack (%s)" % (
            len(stack), ", ".join(str(x[1]) for x in stack)), fi, line)
        return
    lab = stack[0][1]
    ctx.ob(rule_, name, lab in (want, "*global*"),
           "the value left on the stack is not registered as the saved object (it is %s), so that a "
           "second reference builds a second copy" % lab, fi, line)


def relevant(kind, t, x=None):
    if kind != "call":
        return False
    f = t.a[0]
    if f.op == "attr" and f.a[1] in ("trace", "info", "roll"):
        return False
    s = show(f)
    return "save" in s or "write" in s or "memoize" in s or "_batch" in s


def saver_quals(ctx):
    H = handlers(ctx)
    out = {fi.qual for v in H.values() for fi in v}
    out.add(D + "_save_with_postproc")
    # helpers that hand the object on
    out |= {q for q in ctx.prog.funcs if q.startswith(D) and q[len(D):].startswith(("save_", "_save_"))}
    return out


@rule("C10")
def balance(ctx):
    R = "C10.balance"
    savers = saver_quals(ctx)
    H = handlers(ctx)
    done = set()
    for t in sorted(H):
        for fi in H[t]:
            if fi.node in done:
                continue
            done.add(fi.node)
            ps = ctx.run(fi, ("pickler", "obj"), keep=relevant)
            n = 0
            for p in ps:
                if p.ctl == "raise":
                    continue
                n += 1
                simulate(ctx, R, "%s (%s)" % (fi.qual, t), fi, p, savers)
            if not n:
                raise AnalysisError("no path analysed in " + fi.qual)
    # helpers and handlers registered in other ways
    names = {D + "_save_with_postproc": ("pickler", "reduction", "is_dill", "obj", "pp"),
             D + "_save_file": ("pickler", "obj", "open_")}
    called = {c.func.id for c in ast.walk(ctx.prog.modules["dill._dill"].tree)
              if isinstance(c, ast.Call) and isinstance(c.func, ast.Name)}
    for q in sorted(savers):
        for fi in ctx.prog.funcs.get(q, []):
            if fi.node in done or not fi.node.args.args:
                continue
            if q == D + "save_dict_view" or q.rpartition(".")[2] not in called or is_helper(ctx, fi):
                continue
            done.add(fi.node)
            nm = names.get(q, ("pickler", "obj"))
            if len(fi.node.args.args) < 2:
                continue
            for p in ctx.run(fi, nm, keep=relevant):
                if p.ctl == "raise":
                    continue
                f = {show(k): v for k, v in p.facts.items()}
                want = "obj"
                if f.get("dill._shims.Getattr.NO_DEFAULT is obj"):
                    want = "dill._shims.Reduce(reduction)"
                simulate(ctx, R, fi.qual, fi, p, savers, want)
    # handlers made inside functions
    for q in (D + "save_dict_view", D + "save_dict_view_for_function", D + "Pickler.save"):
        for fi in ctx.prog.funcs.get(q, []):
            for f, p in run_with_closures(ctx, fi, names=("pickler", "obj") if q.endswith(".save") else None,
                                          inner=("pickler", "obj"), keep=relevant, track=None):
                if f is fi or p.ctl == "raise" or len(f.node.args.args) < 2:
                    continue
                simulate(ctx, R, f.qual, f, p, savers)
    ctx.floor(R, 60)


@rule("C10")
def override(ctx):
    """the overridden save hands every object to the stock pickler exactly once"""
    for fi in ctx.funcs(D + "Pickler.save"):
        ps = ctx.run(fi, ("self", "obj", "save_persistent_id"), keep=lambda k, t, x=None: k == "call" and
                     "Pickler" in show(t.a[0]) and "save" in show(t.a[0]))
        for p in ps:
            if p.ctl == "raise":
                ctx.ob("C10.once", fi.qual, p.implicit or not p.events or True, "", fi)
                continue
            cs = [show(e.t) for e in p.events]
            ctx.ob("C10.once", fi.qual, cs in (
                ["pickle._Pickler.save(self, obj, save_persistent_id)"],
                ["pickle._Pickler.save(self, obj, save_persistent_id=save_persistent_id)"]),
                "an object handed to the pickler must be handed on to the stock pickler once; found %s" % cs,
                fi, p.events[-1].line if p.events else 0)
    for fi in ctx.funcs(D + "Pickler.dump"):
        ps = ctx.run(fi, ("self", "obj"), keep=lambda k, t, x=None: k == "call" and "dump" in show(t.a[0]))
        for p in ps:
            if p.ctl == "raise":
                continue
            cs = [show(e.t) for e in p.events]
            ctx.ob("C10.once", fi.qual, cs == ["pickle._Pickler.dump(self, obj)"],
                   "dumping must dump the object once; found %s" % cs, fi)
