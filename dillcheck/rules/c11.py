"""C11: locks; C12: weak references and proxies."""
import re

from .. import terms as tm
from ..lib import OneOf, handler_table, handlers, matches, pops, result, show, callee_is
from ..program import AnalysisError
from . import rule

D = "dill._dill."


def facts_of(p):
    return {show(k): v for k, v in p.facts.items()}


def real(ps):
    return [p for p in ps if not (p.ctl == "raise" and p.implicit)]


@rule("C11")
def locks(ctx):
    handler_table(ctx, "C11.save", ["LockType"], lambda A: [
        "reduce dill._dill._create_lock (obj.locked(),) obj=obj"])

    def rlock(got):
        """count and owner taken from the lock's own text, in this order"""
        if len(got) != 1 or not got[0].startswith("reduce dill._dill._create_rlock (") or \
                not got[0].endswith(" obj=obj"):
            return False
        a, _, b = got[0][len("reduce dill._dill._create_rlock ("):-len(") obj=obj")].partition("), int(")
        return "'count='" in a and "'owner='" in b and "owner" not in a and "count" not in b and \
            a.startswith("int(") and a.count("repr(obj)") == 1 and b.count("repr(obj)") == 1
    handler_table(ctx, "C11.save", ["RLockType"], lambda A: rlock)
    # the whole number, not a fixed number of its characters
    for fi in handlers(ctx).get("RLockType", []):
        for p in ctx.paths(fi, ("pickler", "obj")):
            for e in p.events:
                for t in tm.subterms(e.t) if e.kind == "call" else ():
                    if t.op != "sub" or "repr(obj)" not in show(t.a[0]):
                        continue
                    base, i = t.a
                    parts = base.op == "call" and base.a[0].op == "attr" and base.a[0].a[1] in (
                        "split", "rsplit", "partition", "rpartition", "groups", "groupdict", "findall") or \
                        base.op == "call" and show(base.a[0]).startswith(("re.", "_sre."))
                    ctx.ob("C11.whole-number", fi.qual, parts,
                           "part of the lock's text is taken by position: " + show(t), fi, e.line)
    # pickling only inspects
    for t in ("LockType", "RLockType"):
        for fi in handlers(ctx).get(t, []):
            for p in ctx.paths(fi, ("pickler", "obj")):
                bad = [show(e.t) for e in p.events if e.kind == "call" and e.t.a[0].op == "attr" and
                       show(e.t.a[0].a[0]) == "obj" and e.t.a[0].a[1] not in (
                           "locked", "__repr__", "_is_owned", "_recursion_count")]
                bad += [show(e.t) for e in p.events if e.kind in ("setattr", "delattr") and show(e.t) == "obj"]
                ctx.ob("C11.inspect", fi.qual, not bad, "saving a lock operates on it: %s" % bad, fi)


LOCKS = ("threading.Lock()", "_thread.allocate_lock()", "dill._dill.LockType()", "_thread.LockType()",
         "threading._allocate_lock()", "_thread.lock()")
RLOCKS = ("_thread.RLock()", "dill._dill.RLockType()", "threading.RLock()")
ACQ = ("acquire(False)", "acquire(blocking=False)", "acquire(0)", "acquire_lock(False)",
       "acquire(timeout=0)", "acquire(False, -1)")


@rule("C11")
def rebuild(ctx):
    for fi in ctx.funcs(D + "_create_lock"):
        for p in real(ctx.paths(fi, ("locked",))):
            f = facts_of(p)
            line = p.events[-1].line if p.events else 0
            calls = [show(e.t) for e in p.events if e.kind == "call" and "acquire" in show(e.t.a[0])]
            acq = {k: v for k, v in f.items() if any(k == l + "." + a for l in LOCKS for a in ACQ)}
            r = result(p)
            want = f.get("locked")
            if p.ctl == "raise":
                ctx.ob("C11.lock", fi.qual, "UnpicklingError" in r and want is True and
                       list(acq.values()) == [False], "raises %s although the lock could be put in "
                       "its state" % r, fi, line)
                continue
            ctx.ob("C11.lock", fi.qual, r[4:] in LOCKS, "returns %s instead of a new lock" % r, fi, line)
            if want is None:
                ctx.ob("C11.lock", fi.qual, False, "the lock's state is not used", fi, line)
            elif want:
                ctx.ob("C11.lock", fi.qual, len(calls) == 1 and list(acq.values()) == [True] and
                       any(r[4:] + "." + a in acq for a in ACQ),
                       "returned without having been acquired (acquisitions checked: %s)" % acq, fi, line)
            else:
                ctx.ob("C11.lock", fi.qual, not calls, "an unheld lock is acquired: %s" % calls, fi, line)
    for fi in ctx.funcs(D + "_create_rlock"):
        for p in real(ctx.paths(fi, ("count", "owner"))):
            f = facts_of(p)
            line = p.events[-1].line if p.events else 0
            calls = [show(e.t) for e in p.events if e.kind == "call" and (
                "acquire" in show(e.t.a[0]) or "release" in show(e.t.a[0]))]
            r = result(p)
            held = f.get("owner")
            if held is None and "count" in f:
                held = f["count"]
            if held is None:
                for k, v in f.items():
                    if k in ("owner == 0", "0 == owner", "count == 0", "0 == count"):
                        held = not v
                    if k in ("owner > 0", "0 < owner", "count > 0", "0 < count"):
                        held = v
            own = {k: v for k, v in f.items() if k.endswith("._is_owned()") and k[:-12] in RLOCKS}
            if p.ctl == "raise":
                ctx.ob("C11.rlock", fi.qual, "UnpicklingError" in r and held is True and
                       list(own.values()) == [False], "raises %s although the lock is in its state" % r, fi, line)
                continue
            ctx.ob("C11.rlock", fi.qual, r[4:] in RLOCKS, "returns %s instead of a new lock" % r, fi, line)
            if held is None:
                # always restored: would leave an unheld lock unusable
                ctx.ob("C11.rlock", fi.qual, False,
                       "the restored state does not depend on whether the lock was held", fi, line)
            elif held:
                ctx.ob("C11.rlock", fi.qual, calls == [r[4:] + "._acquire_restore((count, owner))"] and
                       list(own.values()) == [True],
                       "a held lock must get its count and owner back and be checked to be owned; found "
                       "%s, checks %s" % (calls, own), fi, line)
            else:
                ctx.ob("C11.rlock", fi.qual, not calls, "an unheld lock is acquired: %s" % calls, fi, line)
    ctx.floor("C11.lock", 3)
    ctx.floor("C11.rlock", 3)


# ---------------------------------------------------------------------------- C12
@rule("C12")
def weak(ctx):
    handler_table(ctx, "C12.save", ["ReferenceType"], lambda A: [
        "reduce dill._dill._create_weakref (obj(),) obj=obj"])
    handler_table(ctx, "C12.save", ["ProxyType", "CallableProxyType"], lambda A: [
        "reduce dill._dill._create_weakproxy (dill._dill._locate_object(dill._dill._proxy_helper(obj)), "
        "callable(obj)) obj=obj"])
    for fi in ctx.funcs(D + "_create_weakref"):
        ctx.table("C12.ref", fi, ctx.paths(fi, ("obj",)), kept, lambda A: (
            dead("weakref.ref(", False) if A("obj is None") else OneOf("ret weakref.ref(obj, **args)",
                                                                       "ret weakref.ref(obj)")))
    for fi in ctx.funcs(D + "_create_weakproxy"):
        ctx.table("C12.proxy", fi, ctx.paths(fi, ("obj", "callable")), kept, lambda A: (
            dead("weakref.proxy(", A("callable")) if A("obj is None") else
            OneOf("ret weakref.proxy(obj, **args)", "ret weakref.proxy(obj)")))
        a = fi.node.args
        ctx.ob("C12.proxy", fi.qual + " (signature)", len(a.args) >= 2 and len(a.defaults) >= 1 and
               not getattr(a.defaults[-1], "value", True), "older pickles give no callable flag", fi)


def kept(p):
    """the result, and what the path leaves behind that could keep a throw-away object alive"""
    left = [e for e in p.events if e.kind not in ("call", "raises", "except", "raise", "trace", "read")]
    return result(p) + "".join(" after %s of %s" % (e.kind, show(e.t)) for e in left)


def dead(maker, call):
    def pred(got):
        if not got.startswith("ret " + maker) or " after " in got:
            return False
        arg = got[4 + len(maker):]
        fresh_fn = arg.startswith("fn(")
        fresh_obj = arg[:1].isalpha() and "()" in arg.split(",")[0] and not fresh_fn
        return fresh_fn if call else fresh_obj
    pred.__doc__ = "%s(a %s object nothing else refers to)" % (maker[:-1], "callable" if call else "non-callable")
    return pred


@rule("C12")
def find(ctx):
    for fi in ctx.funcs(D + "_locate_object"):
        ps = real(ctx.paths(fi, ("address", "module"), excev=True))
        kinds = set()
        domains = set()
        for p in ps:
            f = facts_of(p)
            line = p.events[-1].line if p.events else 0
            r = result(p)
            if p.ctl == "raise":
                kinds.add(r)
                ctx.ob("C12.missing", fi.qual, r in ("raise TypeError", "raise ReferenceError"),
                       "a failed search ends with %s" % r, fi, line)
                if r == "raise TypeError":
                    ctx.ob("C12.missing", fi.qual + " (type)", any(e.kind == "except" and show(e.t) == "TypeError"
                                                                 for e in p.events),
                           "a valid address that is not found is reported as a type error", fi, line)
                continue
            x = r[4:]
            same = [k for k, v in f.items() if v and k in (
                "address == id(%s)" % x, "id(%s) == address" % x, "id(%s) is address" % x)]
            ctx.ob("C12.identity", fi.qual, bool(same),
                   "returns %s without having compared its identity with the address (%s)" % (
                       x, [k for k, v in f.items() if v]), fi, line)
            if x.startswith("elem("):
                domains.add((f.get("module"), x))
        ctx.ob("C12.missing", fi.qual + " (cases)", "raise ReferenceError" in kinds,
               "a failed search does not raise a reference error", fi)
        ctx.ob("C12.domain", fi.qual, any(not m and "gc.get_objects()" in x for m, x in domains),
               "the objects known to the collector are not searched: %s" % sorted(map(str, domains)), fi)
        ctx.ob("C12.domain", fi.qual + " (module)", any(m and "module.__dict__" in x for m, x in domains),
               "the given module is not searched: %s" % sorted(map(str, domains)), fi)
        for s in ("None",):
            among = [re.search(r"[\[({, ]%s[,\])}]" % s, x) for m, x in domains]     # searched with the others
            ctx.ob("C12.dead", fi.qual, any(result(p) == "ret " + s for p in ps) or among and all(among),
                   "the address of None (a dead referent) is not found", fi)
    for fi in ctx.funcs(D + "_proxy_helper"):
        ps = real(ctx.paths(fi, ("obj",), excev=True))
        S, R = "fmt(fv('', obj))", "repr(obj)"
        eq = ("%s == %s" % (S, R), "%s == %s" % (R, S))
        addr = (".rstrip('>').split(' at ')[-1], base=16)", ".rstrip('>').split(' at ')[-1], 16)",
                ".rstrip('>').rpartition(' at ')[-1], base=16)", ".rstrip('>').rpartition(' at ')[2], 16)",
                ".rstrip('>').rsplit(' at ', 1)[-1], base=16)", ".rstrip('>').rsplit(' at ', 1)[-1], 16)",
                ".rstrip('>').rsplit(' at ', 1)[1], 16)", ".rpartition(' at ')[2].rstrip('>'), 16)")
        kinds = set()
        for p in ps:
            f = facts_of(p)
            line = p.events[-1].line if p.events else 0
            r = result(p)
            exc = [show(e.t) for e in p.events if e.kind == "except"]
            same = next((f[k] for k in eq if k in f), None)
            pypy = f.get(D + "IS_PYPY")
            if exc[:1] == ["ReferenceError"] and same is None:
                kinds.add("dead")
                ctx.ob("C12.dead", fi.qual, r == "ret id(None)", "a dead proxy gives %s" % r, fi, line)
            elif r == "ret id(None)":
                ctx.ob("C12.dead", fi.qual, False, "a live proxy is treated as dead", fi, line)
            elif same:
                kinds.add("not a proxy")
                ctx.ob("C12.address", fi.qual, r == "ret id(obj)", "an object that is no proxy gives %s" % r, fi, line)
            elif p.ctl == "raise":
                ctx.ob("C12.missing", fi.qual, r == "raise ReferenceError", "a failed search ends with " + r, fi, line)
            elif pypy is False:
                kinds.add("address")
                ctx.ob("C12.address", fi.qual, any(r == "ret int(" + R + a for a in addr),
                       "the address of the referent must be read from the proxy's own representation "
                       "(the text of the referent is arbitrary); found " + r, fi, line)
            elif pypy is True:
                ok = any(r == "ret int(" + S + a for a in addr) or any(r == "ret int(" + R + a for a in addr)
                if not ok and r.startswith("ret id(elem(gc.get_objects()"):
                    x = r[7:-1]
                    ok = any(v and k in ("%s == repr(%s)" % (S, x), "repr(%s) == %s" % (x, S))
                             for k, v in f.items())
                ctx.ob("C12.address", fi.qual + " (pypy)", ok, "the address of the referent is " + r, fi, line)
            else:
                ctx.ob("C12.address", fi.qual, any(r == "ret int(" + R + a for a in addr), "found " + r, fi, line)
                kinds.add("address")
        ctx.ob("C12.address", fi.qual + " (cases)", {"dead", "address"} <= kinds,
               "cases found: %s" % sorted(kinds), fi)
