"""C18: the trace of a pickling operation; C19: the trace context."""
import ast
import re

from .. import terms as tm
from ..lib import (TRACK_ALL, callee_is, calls, caught_names, closure_nodes, facts, fmt_conds, mutation, result, run_with_closures, show, sweep,
                   is_helper, module_level, pickler_op, written)
from ..program import AnalysisError
from . import rule

L = "dill.logger."
TA, TF, TMG = L + "TraceAdapter", L + "TraceFormatter", L + "TraceManager"
TELL = "pickler._file.tell()"
FR = "pickler.framer.current_frame"


# ------------------------------------------------------------------ typestate of the handlers
def is_trace(t):
    f = t.a[0]
    s = show(f)
    return s in (L + "adapter.trace", "dill._dill.logger.trace", L + "logger.trace")


def tkeep(kind, t, x=None):
    if kind == "call":
        return is_trace(t) or show(t.a[0]) in ("logging.Logger.trace",)
    return False


def label(t):
    """(label, True at the end of an announcement) of a message, or None"""
    s = None
    if tm.is_const(t) and isinstance(tm.cval(t), str):
        s = tm.cval(t)
    elif t.op in ("fmt", "add", "binop"):
        for x in t.a:
            if isinstance(x, tm.T) and tm.is_const(x) and isinstance(tm.cval(x), str):
                s = tm.cval(x)
                break
            if isinstance(x, str) and x not in ("Mod", "Add"):
                s = x
                break
            if isinstance(x, tm.T) and x.op not in ("c",):
                break
    if s is None:
        return None
    if s.startswith("#"):
        return s[1:].strip(), True
    return s.partition(":")[0].strip(), False


@rule("C18")
def balance(ctx):
    n = 0
    skip = {"dill._dill._extend", "dill._dill._revert_extension"}    # not dumping
    for qual in sorted(q for q in ctx.prog.funcs if not q.startswith(L) and q not in skip):
        for fi in ctx.prog.funcs[qual]:
            if "trace" not in fi_names(ctx, fi) or is_helper(ctx, fi):
                continue
            for f, p in run_with_closures(ctx, fi, keep=tkeep, excev=False, unroll=1):
                evs = [e for e in p.events if e.kind == "call" and is_trace(e.t)]
                if not evs or p.ctl == "raise":
                    continue
                n += 1
                bad = discipline(ctx, f, evs)
                ctx.ob("C18.balance", "%s: %s" % (f.qual, " ".join(str(show(tm.cargs(e.t)[1]))[:12] for e in evs[:1])),
                       bad is None, bad[1] if bad else "", f, bad[0].line if bad else evs[0].line)
    ctx.floor("C18.balance", 60)


def fi_names(ctx, fi):
    return {x.attr for x in closure_nodes(ctx, fi) if isinstance(x, ast.Attribute)}


def discipline(ctx, fi, evs):
    stack = []
    params = [a.arg for a in fi.node.args.args]
    for e in evs:
        a = tm.cargs(e.t)
        if len(a) < 2:
            return e, "trace is called without pickler or message"
        if params[:1] == ["pickler"] and show(a[0]) != "pickler":
            return e, "the announcement is made for %s instead of the pickler" % show(a[0])
        lb = label(a[1])
        if lb is None:
            return e, "the label of the message %s cannot be determined" % show(a[1])
        if e.loops:
            return e, "an announcement is made inside a loop"
        if lb[1]:
            if not stack:
                return e, "the end '# %s' has no announcement" % lb[0]
            top = stack.pop()
            if top[0] != lb[0]:
                return e, "the announcement '%s' is ended with '# %s'" % (top[0], lb[0])
        else:
            stack.append((lb[0], e))
    if stack:
        return stack[-1][1], "the announcement '%s' is never ended on this path" % stack[-1][0]
    return None


def caught_keep(kind, t, x=None):
    if kind in ("call", "raises"):
        if kind == "raises" and x is not None:
            return False
        f = t.a[0]
        if f.op == "attr" and f.a[1] in ("save", "save_reduce", "save_global", "save_dict", "_batch_setitems",
                                         "_batch_appends", "save_tuple"):
            return True
        return f.op == "g" and f.a[0].rpartition(".")[2].startswith(("save_", "_save_"))
    return kind in ("except", "raise")


@rule("C18")
def caught(ctx):
    """an exception from a nested save must not be swallowed: the nested announcement is never ended"""
    for qual in sorted(q for q in ctx.prog.funcs if q.startswith("dill._dill.")):
        for fi in ctx.prog.funcs[qual]:
            if is_helper(ctx, fi) or not ({"save", "save_reduce", "save_global"} & fi_names(ctx, fi)):
                continue
            for f, p in run_with_closures(ctx, fi, keep=caught_keep, excev=True):
                evs = p.events
                bad = None
                for i, e in enumerate(evs):
                    if e.kind == "raises" and p.ctl != "raise" and any(x.kind == "except" for x in evs[i:]):
                        bad = e
                ctx.ob("C18.swallow", f.qual, bad is None, "an exception from a nested save is swallowed, the depth "
                       "stays wrong", f, bad.line if bad else 0)
    ctx.floor("C18.swallow", 40)


# ------------------------------------------------------------------ the adapter
def pieces(p):
    """canonical effects of one path of TraceAdapter.trace"""
    o = dict(stack=[], info=[], depth=None, extra={}, other=[])
    for e in p.events:
        w = written(e)
        s = show(e.t)
        if e.kind in ("raises", "except", "aug"):
            continue
        if e.kind == "setattr" and s == "pickler":
            nm = tm.cval(e.x.a[0])
            if nm == "_trace_depth":
                o["depth"] = show(e.x.a[1])
            else:
                o["other"].append("pickler.%s is set" % nm)
            continue
        if w is not None and show(w) == "pickler._size_stack":
            m, a = mutation(e)
            o["stack"].append((m, show(a[0]) if a else ""))
            continue
        if e.kind == "setitem" and tm.is_const(e.x.a[0]) and tm.cval(e.x.a[0]) in ("depth", "size"):
            o["extra"][tm.cval(e.x.a[0])] = show(e.x.a[1])
            continue
        if e.kind == "mut" and mutation(e)[0] == "update":
            for a in mutation(e)[1]:
                if a.op == "dict":
                    for kv in a.a:
                        if kv.op == "kv" and tm.is_const(kv.a[0]):
                            o["extra"][tm.cval(kv.a[0])] = show(kv.a[1])
            continue
        if e.kind == "setitem" and s == "**kwds":
            continue
        if e.kind == "call":
            f = show(e.t.a[0])
            if f in ("self.info", "dill.logger.logger.info", "self.logger.info", "self.log"):
                kw = tm.ckw(e.t)
                x = kw.get("extra")
                ex = dict(o["extra"])
                if x is not None and x.op == "dict":
                    for kv in x.a:
                        if kv.op == "kv" and tm.is_const(kv.a[0]):
                            ex[tm.cval(kv.a[0])] = show(kv.a[1])
                o["info"].append((f, [show(a) for a in tm.cargs(e.t)], ex))
                continue
            if f.startswith("pickler") and not f.endswith((".tell", ".__len__")):
                o["other"].append("%s is called" % f)
            elif ".write" in f or ".seek" in f or ".flush" in f or ".commit_frame" in f:
                o["other"].append("%s is called" % f)
    return o


def size_of(p):
    """texts the size may have on a path"""
    raised = [show(e.t) for e in p.events if e.kind == "raises"]
    exc = any(e.kind == "except" for e in p.events)
    full = {"add(%s, %s.tell())" % (TELL, FR), "add(%s.tell(), %s)" % (FR, TELL),
            "add(%s, len(%s))" % (TELL, FR)}
    if any(r == TELL for r in raised):
        return {None}
    if exc:
        return full | {TELL, None}
    return full


@rule("C18", also={"C19": ["C18.adapter"]})
def adapter(ctx):
    for fi in ctx.funcs(TA + ".trace"):
        n = 0
        kinds = set()
        for p in ctx.run(fi, ("self", "pickler", "msg"), self_type=TA, track=TRACK_ALL, excev=True):
            f = facts(p)
            o = pieces(p)
            if p.ctl == "raise":
                if not p.implicit:
                    ctx.ob("C18.trace", fi.qual, False, "raises %s" % result(p), fi)
                continue
            n += 1
            ln = p.events[-1].line if p.events else 0

            def ob(ok, msg):
                ctx.ob("C18.trace", "%s where %s" % (fi.qual, fmt_conds(f)[:160]), ok, msg, fi, ln)
            has = f.get("hasattr(pickler, '_trace_depth')")
            ob(not o["other"], "tracing changes the pickler or its output: %s" % "; ".join(o["other"]))
            off = f.get("pickler._trace_depth is None")
            if f.get("getattr(pickler, '_trace_depth', None) is None"):
                off, has = True, True if has is None else has
            if off is None and f.get("pickler._trace_depth") is not None:
                off = not f["pickler._trace_depth"]     # never 0: announcements are balanced
            if has is False:
                ob(not o["stack"] and o["depth"] is None, "a pickler that was not set up is counted")
                continue
            if off:
                kinds.add("off")
                ob(not o["stack"] and o["depth"] is None and not o["info"], "something is logged or counted while "
                   "tracing is off")
                continue
            if off is None:
                ob(False, "the state of tracing is not examined")
                continue
            end = f.get("msg.startswith('#')")
            if end is None:
                ob(False, "the kind of the message is not examined")
                continue
            kinds.add("end" if end else "begin")
            sizes = size_of(p)
            none = [k for k in f if k.endswith(" is None") and TELL in k and f[k]]
            if none:
                sizes = sizes | {None}
            D = "pickler._trace_depth"
            dec, inc = "binop('Sub', %s, 1)" % D, ("add(%s, 1)" % D, "add(1, %s)" % D)
            if end:
                ok = [("pop", "")] == o["stack"] and any(
                    s is not None and o["extra"].get("size") == "binop('Sub', %s, popped(pickler._size_stack))" % s
                    for s in sizes)
                ok = ok or (None in sizes and not o["stack"] and o["extra"].get("size") in (None, "None"))
                ob(ok, "the size reported is not the size now minus the size at the announcement (%s; stack %s)" % (
                    o["extra"].get("size"), o["stack"]))
                ob(o["depth"] == dec, "the depth is not decreased by one (%s)" % o["depth"])
                want = dec
            else:
                ok = any(s is not None and o["stack"] == [("append", s)] for s in sizes)
                ok = ok or (None in sizes and not o["stack"])
                ob(ok and o["extra"].get("size") in (None, "None"), "the size at the announcement is not recorded (%s)"
                   % o["stack"])
                ob(o["depth"] in inc, "the depth is not increased by one (%s)" % o["depth"])
                want = D
            ob(len(o["info"]) == 1 and o["info"][0][1][:2] == ["msg", "**args"], "the message is not logged once with its "
               "arguments (%s)" % (o["info"],))
            if o["info"]:
                ob(o["info"][0][2].get("depth") == want, "the depth in the record is %s" % o["info"][0][2].get("depth"))
                pos = [i for i, e in enumerate(p.events) if e.kind == "call" and show(e.t.a[0]) == o["info"][0][0]]
                late = [e for e in p.events[pos[0]:] if e.kind == "setitem"]
                ob(not late, "the record is completed after it was logged")
        if kinds != {"off", "begin", "end"}:
            raise AnalysisError("TraceAdapter.trace: cases %s" % sorted(kinds))
    ctx.floor("C18.trace", 30)
    for fi in ctx.funcs(TA + ".trace_setup"):
        def outcome(p):
            return sorted((tm.cval(e.x.a[0]), show(e.x.a[1])) for e in p.events if e.kind == "setattr")

        def spec(A):
            if not A.any("dill._dill.is_dill(pickler, False)", "dill._dill.is_dill(pickler, child=False)"):
                return []
            if A.any("self.isEnabledFor(logging.INFO)", "self.logger.isEnabledFor(logging.INFO)",
                     "dill.logger.logger.isEnabledFor(logging.INFO)"):
                return [("_size_stack", "[]"), ("_trace_depth", "1")]
            return lambda got: got in ([("_trace_depth", "None")], [("_size_stack", "[]"), ("_trace_depth", "None")],
                                       [("_size_stack", "None"), ("_trace_depth", "None")])
        ctx.table("C18.setup", fi, ctx.paths(fi, ("self", "pickler"), self_type=TA), outcome, spec)
    for fi in ctx.funcs("dill._dill.Pickler.dump"):
        for p in ctx.run(fi, ("self", "obj"), self_type="dill._dill.Pickler"):
            c = [x for x in calls(p) if x.startswith(("pickle._Pickler.dump(", L + "adapter.trace_setup("))]
            ctx.ob("C18.setup", fi.qual, c == [L + "adapter.trace_setup(self)", "pickle._Pickler.dump(self, obj)"] or
                   p.ctl == "raise", "tracing is not set up before the object is dumped (%s)" % c, fi)
    for fi in ctx.funcs(TA + ".process"):
        ctx.table("C18.adapter", fi, ctx.paths(fi, ("self", "msg", "kwargs"), self_type=TA), result,
                  lambda A: "ret (msg, kwargs)")
    fmt = TF + "('%(prefix)s%(message)s%(suffix)s', handler=handler)"
    for fi in ctx.funcs(TA + ".addHandler"):
        ctx.table("C18.adapter", fi, ctx.paths(fi, ("self", "handler"), self_type=TA),
                  lambda p: [c for c in calls(p) if c.startswith(("handler.", "self."))],
                  lambda A: ["handler.setFormatter(%s)" % fmt, "self.logger.addHandler(handler)"])
    for fi in ctx.funcs(TA + ".removeHandler"):
        ctx.table("C18.adapter", fi, ctx.paths(fi, ("self", "handler"), self_type=TA), calls,
                  lambda A: ["self.logger.removeHandler(handler)"])


POWERS = ("binop('FloorDiv', int(math.log(record.size, 2)), 10)", "binop('FloorDiv', int(math.log2(record.size)), 10)",
          "binop('FloorDiv', binop('Sub', record.size.bit_length(), 1), 10)")


def units(ob, suf):
    """a size divided by 1024 to some power is shown with the unit of that power"""
    m = re.search(r"binop\('RShift', record\.size, (.*?)\)\) '", suf)
    i = re.search(r"'(\w[\w ]*)'\[(.*?)\]\)", suf)
    u = re.search(r"' (\w*)B\]'\)$", suf)
    if m:
        by = {"binop('Mult', %s, 10)" % q: q for q in POWERS}
        by.update({"binop('Mult', 10, %s)" % q: q for q in POWERS})
        by.update({"mult(%s, 10)" % q: q for q in POWERS})
        ob(m.group(1) in by, "the size shown is the size shifted by %s, the unit is a power of 1024" % m.group(1))
        q = by.get(m.group(1))
        if i and q:
            s, x = i.groups()
            good = ("KMGTP", "binop('Sub', %s, 1)" % q), (" KMGTP", q), ("BKMGTP", q), ("0KMGTP", q)
            ob((s, x) in [g for g in good] or (s, x) in [("KMGTPE", good[0][1])], "the unit shown for the power %s is %r[%s]"
               % (q, s, x))
            ob("iB]" in suf, "a power of 1024 is shown without the binary unit")


@rule("C19")
def propagate(ctx):
    """the trace goes to the handlers of dill's logger only"""
    import ast
    m = ctx.prog.modules["dill.logger"]
    sets = [n for n in module_level(m.tree) if isinstance(n, ast.Assign) and
            any(isinstance(t, ast.Attribute) and t.attr == "propagate" for t in n.targets)]

    class F:
        module, node = "dill.logger", (sets or [m.tree.body[0]])[-1]
    ctx.ob("C19.propagate", "dill.logger", bool(sets) and isinstance(sets[-1].value, ast.Constant) and
           sets[-1].value.value in (False, 0), "records are also passed on to the handlers of the root logger", F)


@rule("C18", "C19")
def encoding(ctx):
    """the encoding of a stream may be missing or unknown"""
    n = 0
    for fi in ctx.funcs(TF + ".__init__"):
        for p in ctx.run(fi, self_type=TF, track=lambda a: True, excev=True, raises="all"):
            if p.ctl == "raise":
                continue
            for e in p.events:
                if e.kind == "call" and show(e.t.a[0]) == "codecs.lookup":
                    n += 1
                    a = show(tm.cargs(e.t)[0])
                    f = facts(p)
                    maybe = "encoding" in a and not a.startswith(("locale.", "'")) and f.get(a + " is None") is not False \
                        and f.get(a) is not True
                    ctx.ob("C18.encoding", fi.qual, not maybe, "a stream without an encoding (None) makes the lookup fail",
                           fi, e.line)
        hs = caught_names(ctx, fi)
        ctx.ob("C18.encoding", fi.qual + " (handlers)", bool({"AttributeError"} & hs or {"Exception", "BaseException"} & hs
               or any("hasattr" in show(k) or "getattr" in show(k) for p in ctx.run(fi, self_type=TF, track=lambda a: True)
                      for k in p.facts)), "a handler without a stream, or a stream without an encoding, is not expected: %s"
               % sorted(hs), fi)
        ctx.ob("C18.encoding", fi.qual + " (unknown)", bool({"LookupError", "Exception", "BaseException"} & hs),
               "an unknown encoding makes the setup fail", fi)
    if not n:
        raise AnalysisError("TraceFormatter looks up no encoding")


@rule("C18")
def measuring(ctx):
    """whatever the output stream and the framer are, measuring does not fail"""
    for fi in ctx.funcs(TA + ".trace"):
        hs = caught_names(ctx, fi)
        ctx.ob("C18.measure", fi.qual, bool({"Exception", "BaseException"} & hs) or
               {"AttributeError", "TypeError"} <= hs and bool({"OSError", "IOError"} & hs),
               "streams without tell (AttributeError), that refuse it (OSError) and frames without length (TypeError, after "
               "framing has ended) must not make pickling fail: only %s are caught" % sorted(hs), fi)


@rule("C18")
def formatter(ctx):
    BAR = "binop('Mult', binop('Sub', record.depth, %d), '│')"
    for fi in ctx.funcs(TF + ".format"):
        def fields(p):
            d = {}
            for e in p.events:
                if e.kind == "mut" and show(e.t) in ("record.__dict__", "vars(record)"):
                    for a in mutation(e)[1]:
                        for kv in a.a:
                            if kv.op == "kv" and tm.is_const(kv.a[0]):
                                d[tm.cval(kv.a[0])] = show(kv.a[1])
                elif e.kind == "setattr" and show(e.t) == "record":
                    d[tm.cval(e.x.a[0])] = show(e.x.a[1])
                elif e.kind == "setitem" and show(e.t) in ("record.__dict__", "vars(record)"):
                    d[tm.cval(e.x.a[0])] = show(e.x.a[1])
            return d, result(p)
        n = 0
        for p in ctx.paths(fi, ("self", "record"), self_type=TF):
            if p.ctl == "raise" and p.implicit:
                continue
            n += 1
            f = facts(p)
            d, r = fields(p)
            ln = p.events[-1].line if p.events else 0

            def ob(ok, msg):
                ctx.ob("C18.format", "%s where %s" % (fi.qual, fmt_conds(f)[:160]), ok, msg, fi, ln)
            ob(set(d) >= {"prefix", "suffix"}, "a record is formatted without prefix or suffix")
            ob(r in ("ret super().format(record)", "ret logging.Formatter.format(self, record)"),
               "the result is %s" % r)
            deep = f.get("0 < getattr(record, 'depth', 0)")
            if deep is None:
                deep = f.get("0 < record.depth")
            pre = d.get("prefix", "")
            if deep is False:
                ob(pre == "''", "a record that is not part of a trace gets the prefix %s" % pre)
            elif deep:
                end = f.get("record.msg.startswith('#')")
                one = f.get("record.depth == 1")
                if end is None:
                    ob(False, "the kind of the record is not examined")
                    continue
                if end:
                    ok = BAR % 1 in pre and "└" in pre and "├" not in pre
                elif one:
                    ok = "┬" in pre and "│" not in pre
                elif one is False:
                    ok = BAR % 2 in pre and "├┬" in pre
                else:
                    ok = False
                ob(ok, "the prefix %s does not show the depth" % pre)
                u = f.get("self.is_utf8")
                ob(u is not None and u is (".translate(dill.logger.ASCII_MAP)" not in pre), "box characters are %s"
                   "translated to ASCII" % ("" if u else "not "))
            suf = d.get("suffix", "")
            has = f.get("hasattr(record, 'size')")
            small = f.get("record.size < 1")
            if has is False or f.get("record.size is None") or small:
                ob(suf == "''", "a size is shown for a record without size: %s" % suf)
            elif "record.size" in suf and small is None and f.get("0 < record.size") is not True and \
                    f.get("record.size") is not True and f.get("record.size == 0") is not False:
                ob(False, "the logarithm of a size is taken that may be 0: %s" % suf)
            elif small is False:
                ob("record.size" in suf and "B]" in suf, "the size is not shown: %s" % suf)
                units(ob, suf)
        if n < 6:
            raise AnalysisError("TraceFormatter.format: %d paths" % n)
    ctx.floor("C18.format", 24)
    import ast
    m = ctx.prog.modules.get("dill.logger")
    amap = [n for n in m.tree.body if isinstance(n, ast.Assign) and ast.unparse(n.targets[0]) == "ASCII_MAP"]
    if not amap:
        raise AnalysisError("ASCII_MAP is gone")
    txt = ast.unparse(amap[0].value)
    ctx.ob("C18.format", "dill.logger.ASCII_MAP", all(c in txt for c in "│├┬└"), "a box character has no ASCII "
           "translation")


# ------------------------------------------------------------------ the context manager
def strip_adapter(s):
    s = s.replace("dill.logger.adapter.logger", "dill.logger.logger")
    for m in ("setLevel", "removeHandler", "getEffectiveLevel", "handlers"):
        s = s.replace("dill.logger.adapter." + m, "dill.logger.logger." + m)
    return s


LG = "dill.logger.logger."
SE = "dill.logger.stderr_handler"


def store_of(p):
    return {tm.cval(e.x.a[0]): e for e in p.events if e.kind == "setattr" and show(e.t) == "self"}


@rule("C19")
def manager(ctx):
    # which attributes of the manager hold what
    init = {}
    for fi in ctx.funcs(TMG + ".__init__"):
        for p in ctx.paths(fi, ("self", "file", "mode"), self_type=TMG):
            if p.ctl == "raise":
                continue
            d = {k: show(e.x.a[1]) for k, e in store_of(p).items()}
            for k, v in d.items():
                init.setdefault(v, k)
            ctx.ob("C19.init", fi.qual, {"file", "mode", "not file is None"} <= set(d.values()) or
                   {"file", "mode"} <= set(d.values()), "the target is not remembered (%s)" % d, fi)
    f_, m_ = init.get("file"), init.get("mode")
    if not f_ or not m_:
        raise AnalysisError("TraceManager does not remember its target")

    def canon(s):
        """the manager's attributes under the names of what they hold"""
        s = strip_adapter(s)
        for v, k in sorted(init.items(), key=lambda x: -len(x[1])):
            if v not in ("file", "mode"):
                import re
                s = re.sub(r"\bself\.%s\b" % k, v.replace("not file is None", "redirect").replace(
                    "hasattr(file, 'write')", "isstream"), s)
        s = s.replace("self." + f_, "file").replace("self." + m_, "mode")
        s = s.replace("hasattr(file, 'write')", "isstream")
        return s

    def conds(p):
        out = {}
        for k, v in facts(p).items():
            k = canon(k)
            if k == "file is None":
                k, v = "redirect", not v
            out[k] = v
        return out
    handler, old, had = set(), set(), set()
    for fi in ctx.funcs(TMG + ".__enter__"):
        n = 0
        for p in ctx.run(fi, ("self",), self_type=TMG, track=TRACK_ALL, raises="all", excev=True):
            c = conds(p)
            ops = [(e, canon(show(e.t))) for e in p.events if e.kind == "call"]
            ln = p.events[-1].line if p.events else 0

            def ob(ok, msg):
                ctx.ob("C19.enter", "%s where %s" % (fi.qual, fmt_conds(c)[:120]), ok, msg, fi, ln)
            if p.ctl == "raise":
                done = [s for e, s in ops if s.startswith((LG + "setLevel", LG + "removeHandler",
                                                           "dill.logger.adapter.addHandler"))]
                opened = any(e.kind == "raises" and canon(show(e.t)).startswith(("logging.FileHandler", "logging.StreamHandler"))
                             for e in p.events)
                if opened:
                    ob(not done, "entering the context failed after the logger was changed (%s)" % done)
                continue
            n += 1
            red = c.get("redirect")
            st = {k: canon(show(e.x.a[1])) for k, e in store_of(p).items()}
            names = [s for e, s in ops]
            lv = [i for i, s in enumerate(names) if s == LG + "setLevel(logging.INFO)"]
            ob(len(lv) == 1 and len([s for s in names if s.startswith(LG + "setLevel")]) == 1,
               "tracing is not switched on")
            lvl = [k for k, v in st.items() if v == LG + "level"]
            ob(len(lvl) == 1, "the level in place is not remembered (%s)" % st)
            old.update(lvl)
            if lvl and lv:
                es = list(p.events)
                ob(es.index(store_of(p)[lvl[0]]) < es.index(ops[lv[0]][0]), "the level is remembered after it was changed")
            ob(strip_adapter(show(p.val)) in ("dill.logger.adapter.info", LG + "info"), "the context yields %s instead of "
               "the log function" % show(p.val))
            rest = [s for s in names if "Handler(" in s and not s.startswith("logging.")]
            if red is None:
                ob(False, "whether output is redirected is not examined")
            elif not red:
                ob(not rest, "handlers are changed although no target was given (%s)" % rest)
            else:
                isf = c.get("isstream")
                make = "logging.StreamHandler(file)" if isf else "logging.FileHandler(file, mode)"
                ob(isf is not None, "the kind of the target is not examined")
                hs = [k for k, v in st.items() if v in (make, make.replace("mode", "mode=mode"))]
                ob(len(hs) == 1, "the handler for the target is not remembered (%s)" % st)
                handler.update(hs)
                ob(sorted(rest) == sorted([LG + "removeHandler(%s)" % SE, "dill.logger.adapter.addHandler(%s)" % make]),
                   "the handlers installed are wrong: %s" % rest)
                hd = [k for k, v in st.items() if v == "%s in %shandlers" % (SE, LG)]
                ob(len(hd) == 1, "whether the stderr handler was in place is not remembered")
                had.update(hd)
                if hd:
                    es = list(p.events)
                    rm = [e for e, s in ops if s == LG + "removeHandler(%s)" % SE]
                    ob(rm and es.index(store_of(p)[hd[0]]) < es.index(rm[0]), "whether the stderr handler was in place is "
                       "asked after it was removed")
        if n < 3:
            raise AnalysisError("TraceManager.__enter__: %d paths" % n)
    for fi in ctx.funcs(TMG + ".__exit__"):
        n = 0
        for p in ctx.run(fi, ("self",), self_type=TMG, track=TRACK_ALL):
            c = conds(p)
            ln = p.events[-1].line if p.events else 0

            def ob(ok, msg):
                ctx.ob("C19.exit", "%s where %s" % (fi.qual, fmt_conds(c)[:120]), ok, msg, fi, ln)
            if p.ctl == "raise" and p.implicit:
                continue
            n += 1
            ob(p.ctl == "ret" and show(p.val) in ("None", "False"), "leaving the context swallows exceptions")
            ops = [canon(show(e.t)) for e in p.events if e.kind == "call"]
            want = set()
            o = sorted(old)[0] if old else "old_level"
            h = sorted(handler)[0] if handler else "handler"
            d = sorted(had)[0] if had else "had_stderr"
            want.add(LG + "setLevel(self.%s)" % o)
            red = c.get("redirect")
            if red is None:
                ob(False, "whether output was redirected is not examined")
                continue
            if red:
                want.add(LG + "removeHandler(self.%s)" % h)
                if c.get("self.%s" % d) is not False:
                    want.add("dill.logger.adapter.addHandler(%s)" % SE)
                    ob(c.get("self." + d) is True, "the stderr handler is put back although it may not have been in place")
                if c.get("isstream") is False:
                    want.add("self.%s.close()" % h)
                ob(c.get("isstream") is not None, "the kind of the target is not examined")
            got = [x.replace(LG + "addHandler(%s)" % SE, "dill.logger.adapter.addHandler(%s)" % SE) for x in ops]
            got = [x for x in got if x.startswith((LG, "dill.logger.", "self."))]
            ob(set(got) == want and len(got) == len(want), "the operations are {%s} instead of {%s}" % (
                "; ".join(got), "; ".join(sorted(want))))
            if red and "self.%s.close()" % h in got and LG + "removeHandler(self.%s)" % h in got:
                ob(got.index("self.%s.close()" % h) > got.index(LG + "removeHandler(self.%s)" % h),
                   "the handler is closed while it is still in use")
        if n < 3:
            raise AnalysisError("TraceManager.__exit__: %d paths" % n)
    ctx.floor("C19.exit", 10)
    ctx.floor("C19.enter", 10)
    for fi in ctx.funcs(L + "trace"):
        n = 0
        for p in ctx.paths(fi, ("arg",)):
            if p.ctl == "raise" and p.implicit:
                continue
            n += 1
            f = facts(p)
            r = strip_adapter(show(p.val)) if p.ctl == "ret" else result(p)
            ops = [strip_adapter(x) for x in calls(p) if not x.startswith("repr(")]

            def ob(ok, msg):
                ctx.ob("C19.trace", "%s where %s" % (fi.qual, fmt_conds(f)[:120]), ok, msg, fi,
                       p.events[-1].line if p.events else 0)
            T_ = [f.get("repr(arg) == 'True'"), f.get("arg is True")]
            F_ = [f.get("repr(arg) == 'False'"), f.get("arg is False")]
            B_ = f.get("isinstance(arg, builtins.bool)", f.get("isinstance(arg, bool)"))
            istrue = True in T_
            isfalse = True in F_
            if istrue or isfalse or B_:
                truth = f.get("arg", True if istrue else False if isfalse else None)
                if istrue and f.get("arg") is False or isfalse and f.get("arg") is True:
                    continue
                ob(truth is not None and ops == [LG + "setLevel(logging.%s)" % ("INFO" if truth else "WARNING")],
                   "a boolean does %s" % (ops or "nothing"))
                ob(r == "None", "a boolean returns %s" % r)
            else:
                notb = B_ is False or (False in T_ and False in F_)
                ob(notb, "whether a boolean was given is not examined")
                ob(r in (TMG + "(file=arg, mode=mode)", TMG + "(arg, mode)", TMG + "(arg, mode=mode)"),
                   "the context manager for the target is not returned, but %s" % r)
                ob(not [x for x in ops if not x.startswith(TMG)], "something is changed before the context is entered")
    ctx.floor("C19.trace", 6)
