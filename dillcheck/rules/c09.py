"""C09: closure cells and the queue of deferred assignments."""
import ast

from .. import terms as tm
from ..lib import (OneOf, pickler_op, pops, result, run_with_closures, show, norm)
from ..program import AnalysisError
from . import rule

D = "dill._dill."
SETATTRS = ("dill._shims._setattr", "setattr")
NEXT = ("next(pickler._postproc.values(), None)", "next(iter(pickler._postproc.values()), None)")


def facts_of(p):
    return {show(k): v for k, v in p.facts.items()}


def queue_ops(p):
    """pickler operations plus queue operations, in order"""
    out = []
    for e in p.events:
        o = pickler_op(e)
        if o is not None:
            out.append((o, e))
            continue
        t = show(e.t) if e.t is not None else ""
        if e.kind == "call" and "_postproc" in show(e.t.a[0]) and e.t.a[0].op == "attr":
            out.append(("%s.%s(%s)" % (show(e.t.a[0].a[0]), e.t.a[0].a[1],
                                       ", ".join(show(a) for a in tm.cargs(e.t))), e))
        elif e.kind in ("setitem", "mut", "delitem") and "_postproc" in t:
            out.append(("%s %s %s" % (e.kind, t, show(e.x)), e))
    return out


@rule("C09")
def cells(ctx):
    R = "C09.cell"
    C = "obj.cell_contents"
    for fi in ctx.funcs(D + "save_cell"):
        ps = ctx.paths(fi, ("pickler", "obj"), excev=True)
        empties = 0
        for p in ps:
            if p.ctl == "raise" and p.implicit:
                continue
            got = [o for o, _ in queue_ops(p)]
            f = facts_of(p)
            line = p.events[-1].line if p.events else 0
            exc = [show(e.t) for e in p.events if e.kind == "except"]
            if exc:
                empties += 1
                ctx.ob("C09.empty", fi.qual, exc == ["ValueError"] and got == [
                    "reduce dill._dill._create_cell (dill._shims._CELL_EMPTY,) obj=obj",
                    "reduce dill._shims._delattr (obj, 'cell_contents') obj=-", "write pickle.POP"],
                    "an empty cell (reading it raises ValueError) must be created empty, its contents deleted "
                    "and the deletion's result popped; found, under %s: %s" % (exc, got), fi, line)
                continue
            plain = ["reduce dill._dill._create_cell (%s,) obj=obj" % C]
            if not f.get("dill._dill.is_dill(pickler, True)", True):
                ctx.ob(R, fi.qual, got == plain, "stock pickler: the cell is stored as %s" % got, fi, line)
                continue
            own = f.get("id(%s) in pickler._postproc" % C)
            q = ("pickler._postproc[id(%s)]" % C,) if own else NEXT
            if own is None:
                q = ("get(pickler._postproc, id(%s), %s)" % (C, NEXT[0]),
                     "pickler._postproc.get(id(%s), %s)" % (C, NEXT[0]))
            known = ["get(pickler._postproc, id(%s), None)" % C, "pickler._postproc.get(id(%s), None)" % C]
            missing = next((f[g + " is None"] for g in known if g + " is None" in f), None)
            if own is None and missing is not None:
                # queues are never None: the lookup tells whether there is one
                own = not missing
                q = tuple(known) if own else NEXT + tuple(NEXT[0].replace("None", g) for g in known)
                f = {k: v for k, v in f.items() if k not in [g + " is None" for g in known]}
            defer = [["reduce dill._dill._create_cell (dill._dill._CELL_REF,) obj=obj",
                      "%s.append((%s, (obj, 'cell_contents', %s)))" % (x, s, C)]
                     for x in q for s in SETATTRS]
            none = [v for k, v in f.items() if any(k == x + " is None" for x in q)]
            if not none:
                # truth of the queue itself would treat an empty queue as missing
                bad = [k for k in f if k in q]
                ctx.ob(R, fi.qual, (own and got in defer) and not bad,
                       "whether a queue exists is decided by %s; found %s" % (
                           bad or "nothing", got), fi, line)
            elif none[0]:
                ctx.ob(R, fi.qual, got == plain or (own and got in defer),
                       "no object is under construction: the cell must be stored with its contents, "
                       "found %s" % got, fi, line)
            else:
                ctx.ob(R, fi.qual, got in defer,
                       "an object is under construction: the cell must be created first and its "
                       "contents queued with %s; found %s" % (
                           "that object" if own else "the outermost object", got), fi, line)
        ctx.ob("C09.empty", fi.qual + " (handled)", empties > 0, "empty cells are not handled", fi)
        ctx.floor("C09.cell", 4)
    for fi in ctx.funcs(D + "_create_cell"):
        ps = ctx.paths(fi, ("contents",))
        e = ctx.engines[id(ps)]
        E = "contents is dill._dill._CELL_EMPTY"
        for p in ps:
            if p.ctl != "ret":
                continue
            r = result(p)
            emp = facts_of(p).get(E)
            if r.startswith("ret types.CellType(") or r.startswith("ret dill._dill.CellType("):
                want = "()" if emp else "(contents)"
                ctx.ob("C09.create", fi.qual, emp is not None and r.endswith("CellType" + want),
                       "the cell is created as %s when the empty marker was %s" % (r, emp), fi)
                continue
            t = p.val
            ok, why = False, "found " + r
            if t.op in ("sub", "item") and show(t).endswith(".__closure__[0]"):
                b = t.a[0]
                while b.op != "fn" and b.a and isinstance(b.a[0], tm.T):
                    b = b.a[0]
                if b.op == "fn":
                    inner = e.run_fn(b, p.st, [])
                    for q in inner:
                        if q.ctl != "ret":
                            continue
                        emp2 = facts_of(q).get(E, emp)
                        v = result(q)
                        if emp2:
                            ok = "contents" not in v
                        else:
                            ok = emp2 is False and v == "ret contents"
                        why = "a cell over %r is made when the empty marker is %s" % (v, emp2)
                        if not ok:
                            break
            ctx.ob("C09.create", fi.qual, ok, why, fi, p.events[-1].line if p.events else 0)
        a = fi.node.args
        ctx.ob("C09.create", fi.qual + " (signature)", len(a.args) >= 1 and not a.kwonlyargs,
               "takes no contents", fi)


@rule("C09", "C06")
def queue(ctx):
    R = "C09.queue"
    for fi in ctx.funcs(D + "_save_with_postproc"):
        names = ("pickler", "reduction", "is_dill", "obj", "postproc_list")
        ps = ctx.paths(fi, names)
        seen = set()
        for p in ps:
            if p.ctl == "raise" and p.implicit:
                continue
            f = facts_of(p)
            ops = queue_ops(p)
            got = [o for o, _ in ops]
            line = p.events[-1].line if p.events else 0
            O = "obj"
            if f.get("dill._shims.Getattr.NO_DEFAULT is obj"):
                O = "dill._shims.Reduce(reduction)"
            isd = f.get("is_dill")
            if isd is None:
                isd = f.get(D + "is_dill(pickler, True)")
            if f.get("is_dill is None"):
                isd = f.get(D + "is_dill(pickler, True)")
            if not isd:
                body = [o for o, e in ops if not e.loops]
                ctx.ob(R, fi.qual, body == ["reduce *reduction obj=" + O],
                       "stock pickler: expected the plain reduction, found %s" % body, fi, line)
                seen.add("stock")
                empty = f.get("postproc_list is None") or f.get("postproc_list") is False or \
                    f.get("len(postproc_list) == 0")
                if empty:
                    ctx.ob("C09.each", fi.qual + " (stock)", len(got) == 1,
                           "nothing is deferred, yet more is written: %s" % got[1:], fi, line)
                else:
                    each(ctx, fi, f, [(o, e) for o, e in ops if e.loops], "postproc_list", line)
                continue
            if f.get("id(%s) in pickler._postproc" % O):
                warned = any(e.kind == "call" and show(e.t).startswith("warnings.warn(") and
                             "PicklingWarning" in show(e.t) for e in p.events)
                ctx.ob("C09.recursive", fi.qual, got == ["global %s name=None" % O] and warned,
                       "an object that is already under construction must be stored as a global with a "
                       "warning; found %s" % got, fi, line)
                seen.add("recursive")
                continue
            body = [(o, e) for o, e in ops if not e.loops]
            loop = [(o, e) for o, e in ops if e.loops]
            pre = [o for o, _ in body]
            lists = (["[]", "postproc_list"] if "postproc_list is None" not in f else
                     ["[]"] if f["postproc_list is None"] else ["postproc_list"])
            okl = ["setitem pickler._postproc (id(%s), %s)" % (O, x) for x in lists]
            if pre and pre[0].endswith(" or [])"):
                pass
            ok = len(pre) == 3 and pre[0] in okl and pre[1] == "reduce *reduction obj=" + O and \
                pre[2] in ("mut pickler._postproc ('pop', id(%s))" % O,
                           "delitem pickler._postproc id(%s)" % O)
            ctx.ob(R, fi.qual, ok, "the queue of the object must be registered before its reduction is "
                   "saved and taken back right after; found %s" % pre, fi, line)
            if not ok:
                continue
            seen.add("queue")
            each(ctx, fi, f, loop, "popped(pickler._postproc, id(%s))" % O, line)
        ctx.ob(R, fi.qual + " (cases)", seen == {"stock", "recursive", "queue"},
               "cases found: %s" % sorted(seen), fi)
        ctx.floor("C09.each", 2)


def each(ctx, fi, f, loop, base, line):
    """every deferred assignment of the queue `base` is written, and its result popped"""
    elems = "elem(%s)" % base
    for o, e in loop:
        lt = show(e.loops[-1]) if isinstance(e.loops[-1], tm.T) else str(e.loops[-1])
        ctx.ob("C09.each", fi.qual + " loop", len(e.loops) == 1 and _whole(lt, base),
               "the deferred assignments are emitted in %s, which is not the whole queue" % lt,
               fi, e.line)
    lg = [o for o, _ in loop]
    si = f.get("%s_setitems is %s[0]" % (D, elems))
    src = f.get("%s[1][1]" % elems)
    if src is None and f.get("len(%s[1][1]) == 0" % elems) is not None:
        src = not f["len(%s[1][1]) == 0" % elems]
    red = ["reduce *%s obj=-" % elems, "write pickle.POP"]
    if si:
        dst, items = elems + "[1][0]", "iter(%s[1][1].items())" % elems
        get = ["write get(pickler, pickler.memo[id(%s)][0], None)" % dst,
               "write pickler.get(pickler.memo[id(%s)][0])" % dst]
        upd = [[g, "_batch_setitems " + items, "write pickle.POP"] for g in get]
        ok = lg in upd or lg == red or (not lg and src is False)
    else:
        ok = lg == red
    # newer versions of the stock pickler need the object as well
    if ok and any(o.startswith("_batch_setitems") for o in lg):
        for o, e in loop:
            if o.startswith("_batch_setitems"):
                new = f.get("sys.hexversion < 51249313") is False
                has = "obj" in tm.ckw(e.t) or len(tm.cargs(e.t)) > 1
                ctx.ob("C09.each", fi.qual + " _batch_setitems", has == new,
                       "the object argument is required from Python 3.14 on and unknown before",
                       fi, e.line)
    ctx.ob("C09.each", fi.qual, ok, "a deferred %s is emitted as %s" % (
        "dictionary update" if si else "assignment", lg), fi, line)


def _whole(text, base):
    for pre, post in (("", ""), ("reversed(", ")"), ("iter(", ")"), ("", "[::-1]"), ("list(", ")"),
                      ("tuple(", ")"), ("reversed(list(", "))"), ("reversed(tuple(", "))")):
        if (pre + base + post) in text and (
                text in (pre + base + post, "loop(%s)" % (pre + base + post)) or
                text.startswith("while")):
            return True
    return False


@rule("C09")
def early(ctx):
    """assignments emitted before the end of the outermost object leave the queue"""
    for fi in ctx.funcs(D + "save_function"):
        n = 0
        for p in ctx.run(fi, ("pickler", "obj"), keep=lambda k, t, x=None: "cell_contents" in show(t) or
                         "POP" in show(t) or "cell_contents" in show(x) if x is not None else
                         "cell_contents" in show(t) or "POP" in show(t)):
            ops = queue_ops(p)
            for i, (o, e) in enumerate(ops):
                if o.startswith("reduce ") and "'cell_contents'" in o:
                    n += 1
                    entry = o[len("reduce "):-len(" obj=-")]
                    func, _, args = entry.partition(" ")
                    want = ".remove((%s, %s))" % (func, args)
                    ctx.ob("C09.early", fi.qual, any(
                        x.endswith(want) and "_postproc" in x for x, _ in ops[:i]),
                        "the assignment %s is emitted early but stays queued, so that it is emitted "
                        "twice" % entry, fi, e.line)
                    ctx.ob("C09.early", fi.qual + " (pop)", i + 1 < len(ops) and ops[i + 1][0] == "write pickle.POP",
                           "the result of the early assignment stays on the stack", fi, e.line)
                elif "_postproc" in o and ".remove(" in o:
                    entry = o.partition(".remove((")[2][:-2]
                    func, _, args = entry.partition(", ")
                    ctx.ob("C09.early", fi.qual + " (removed)", any(
                        x == "reduce %s %s obj=-" % (func, args) for x, _ in ops[i:]),
                        "a queued assignment is removed without being emitted: %s" % entry, fi, e.line)


@rule("C09")
def owners(ctx):
    """who touches the queues"""
    allowed = {D + "_save_with_postproc": {"setitem", "pop", "delitem"}, D + "save_cell": {"append"},
               D + "save_function": {"append", "remove"}, D + "Pickler.__init__": {"setattr"}}
    from ..lib import sweep
    n = 0
    for fi, p in sweep(ctx, only=lambda q: q.startswith("dill._dill."),
                       keep=lambda k, t, x=None: "_postproc" in show(t) or (
                           x is not None and "_postproc" in show(x))):
        for e in p.events:
            kind = None
            t = show(e.t)
            if e.kind == "call":
                f = e.t.a[0]
                if f.op == "attr" and "_postproc" in show(f.a[0]) and "reduce" not in f.a[1] and \
                        f.a[1] in ("append", "remove", "pop", "clear", "insert", "extend", "popitem",
                                   "update", "setdefault", "reverse", "sort", "move_to_end"):
                    kind = f.a[1]
            elif e.kind in ("setitem", "delitem") and "_postproc" in t:
                kind = e.kind
            elif e.kind == "mut" and "_postproc" in t:
                kind = tm.cval(e.x.a[0]) if e.x.op == "tuple" and tm.is_const(e.x.a[0]) else "mut"
            elif e.kind == "setattr" and e.x is not None and "'_postproc'" in show(e.x):
                kind = "setattr"
            if kind is None:
                continue
            n += 1
            q = e.fn or fi.qual
            ok = any(q == k or fi.qual == k for k in allowed) and any(
                kind in v for k, v in allowed.items() if k in (q, fi.qual))
            ctx.ob("C09.owner", "%s %s" % (fi.qual, kind), ok,
                   "%s of the queues of deferred assignments" % kind, fi, e.line)
    ctx.floor("C09.owner", 5)
