"""C22: numpy arrays, universal functions and data types."""
from .. import terms as tm
from ..terms import mk
from ..engine import Engine, Policy
from ..lib import TRACK_ALL, facts, no_trace, pops, reduction, result, show
from ..program import AnalysisError
from . import rule

D = "dill._dill."
MRO = "elem(obj_type.__mro__)"


def mro_facts(F, what):
    """is the numpy class `what` in the mro on this path? (None if not tested)"""
    for k, b in F.items():
        if "obj_type.__mro__" in k and "'numpy'" in k and "'%s'" % what in k and \
                ("%s.__module__" % MRO) in k and ("%s.__name__" % MRO) in k:
            neg = " not " in k or "!=" in k
            if k.startswith("all(") and neg:
                return not b
            if k.startswith("any(") and not neg:
                return b
            if k.startswith(("(", "'")) and " == " in k:
                return b
    return None


@rule("C22")
def tests(ctx):
    R = "C22.tests"
    n = 0
    for nm, what in (("numpyufunc", "ufunc"), ("numpydtype", "dtype"), ("ndarraysubclassinstance", "ndarray")):
        for fi in ctx.funcs(D + nm):
            ps = [p for p in ctx.run(fi, names=("obj_type",), keep=no_trace, track=TRACK_ALL) if not p.implicit]
            if [result(p) for p in ps] == ["ret False"]:
                continue        # the arm without numpy
            n += 1
            for p in ps:
                F = dict(facts(p))
                v = show(p.val)
                hook = any(e.kind == "call" and show(e.t.a[0]) == D + "__hook__" for e in p.events)
                m = mro_facts(F, what)
                if m is None and mro_facts({v: True}, what):
                    ctx.ob(R, fi.qual, what == "ufunc" and not hook, "only the class in the type's ancestors decides: %s" % v, fi)
                    continue
                if not m:
                    ctx.ob(R, fi.qual, m is False and v == "False" and not hook, "must be false, without importing numpy, "
                           "unless numpy's %s is among the ancestors of the type: %s" % (what, v), fi)
                    continue
                if what == "ufunc":
                    ctx.ob(R, fi.qual, v == "True", "a universal function is not recognised: %s" % v, fi)
                elif what == "dtype":
                    ctx.ob(R, fi.qual, hook and v in ("obj_type is type(dill._dill.NumpyDType)",
                                                      "type(dill._dill.NumpyDType) is obj_type"),
                           "the class of data types is the type of numpy's dtype (once imported): %s" % v, fi)
                else:
                    own = [F.get(k) for a in ("__reduce__", "__reduce_ex__") for k in
                           ["dill._dill.NumpyArrayType.%s is obj_type.%s" % (a, a)]]
                    exp = {"True": own == [True, True], "False": False in own}.get(v)
                    ctx.ob(R, fi.qual, hook and bool(exp), "an array class is handled here if neither of its reduction methods "
                           "is overridden: %s where %s" % (v, own), fi)
    ctx.floor(R, 4)
    for fi in ctx.funcs(D + "__hook__"):
        want = {"NumpyArrayType": "numpy.ndarray", "NumpyUfuncType": "numpy.ufunc", "NumpyDType": "numpy.dtype"}
        for p in ctx.run(fi, keep=lambda k, t, x=None: k == "storeglobal"):
            got = {show(e.t).rpartition(".")[2]: show(e.x) for e in p.events if e.kind == "storeglobal"}
            ctx.ob("C22.import", fi.qual, got == want, "must bind %s: %s" % (want, got), fi)


@rule("C22")
def register(ctx):
    R = "C22.register"
    for fi in ctx.funcs(D + "Pickler.save"):
        e = Engine(ctx.prog, Policy(vocab=ctx.vocab, track=TRACK_ALL))
        a = fi.node.args
        names = [x.arg for x in a.args]
        ps = e.run(fi, params={names[1]: mk("p", "obj")})
        ctx.nfuncs.add(fi.qual)
        ctx.npaths += len(ps)
        found = {}
        for p in ps:
            F = facts(p)
            has = F.get("dill._dill.NumpyArrayType")
            skip = F.get("type is type(obj)"), F.get("type(obj) in dill._dill.Pickler.dispatch")
            preds = {nm: F.get(D + nm + "(type(obj))") for nm in ("numpyufunc", "numpydtype", "ndarraysubclassinstance")}
            must = has and skip == (False, False)
            done = {}
            for ev in p.events:
                X = None
                if ev.kind == "call" and ev.t.a[0].op == "call" and show(ev.t.a[0].a[0]) == D + "register":
                    T_, X = tm.cargs(ev.t.a[0])[0], tm.cargs(ev.t)[0]
                elif ev.kind == "setitem" and show(ev.t).endswith("Pickler.dispatch"):
                    T_, X = ev.x.a[0], ev.x.a[1]
                if X is None:
                    continue
                ctx.ob(R, fi.qual + " type", show(T_) == "type(obj)", "the handler is registered for %s" % show(T_), fi, ev.line)
                on = [nm for nm in preds if ev.facts.get(tm_call(ev, nm)) is True]
                true = [nm for nm, b in preds.items() if b and nm not in done]
                nm = on[-1] if on else true[0] if true else None
                ctx.ob(R, fi.qual, must and nm is not None, "a handler is registered although %s" % (
                    "the type is none of numpy's" if must else "the type already has a handler"), fi, ev.line)
                if nm:
                    done[nm] = X
                    found.setdefault(nm, {})[show(X)] = (X, p)
            if must and p.ctl == "ret":
                for nm, b in preds.items():
                    if b and not any(preds[k] for k in preds if k != nm):
                        ctx.ob(R, fi.qual + " " + nm, nm in done, "no handler is registered for a type that passes %s" % nm, fi)
                if None in preds.values() and not any(preds.values()):
                    ctx.ob(R, fi.qual, False, "not tested: %s" % [k for k in preds if preds[k] is None], fi)
            if p.ctl == "ret":
                last = [ev for ev in p.events if ev.kind == "call"][-1:]
                ctx.ob(R, fi.qual + " save", bool(last) and show(last[0].t) in (
                    "pickle._Pickler.save(self, obj, save_persistent_id)",
                    "super().save(obj, save_persistent_id)") or "save_persistent_id" in show(last[0].t),
                    "the object is not saved", fi)
        for nm in ("numpyufunc", "numpydtype", "ndarraysubclassinstance"):
            if nm not in found:
                raise AnalysisError("no handler found for %s" % nm)
            for X, p in found[nm].values():
                handler(ctx, e, nm, X, p, fi)
    ctx.floor(R, 4)


def tm_call(ev, nm):
    for k in ev.facts:
        if show(k) == D + nm + "(type(obj))":
            return k
    return None


def handler(ctx, e, nm, X, p, fi):
    R = "C22." + nm
    args = [mk("p", "pickler"), mk("p", "arr")]
    if X.op == "fn":
        f2 = e.fnreg[X.a[0]][0]
        ps = e.run_fn(X, p.st, args)
        ps = [q for q in ps]
        base = len(p.events)
    else:
        fis = ctx.prog.funcs.get(show(X)) or []
        if not fis:
            raise AnalysisError("handler %s not found" % show(X))
        f2 = fis[0]
        ps = ctx.run(f2, names=("pickler", "arr"), track=TRACK_ALL)
        base = 0
    ctx.nfuncs.add(f2.qual)
    n = 0
    for q in ps:
        if q.implicit:
            continue
        n += 1
        evs = [ev for ev in q.events]
        new = [ev for ev in evs if ev not in p.events] if base else evs
        F = facts(q)
        if nm == "numpyufunc":
            ops = [o for o in pops(type("Q", (), {"events": new})()) if o]
            name = "getattr(arr, '__qualname__', getattr(arr, '__name__', None))"
            ctx.ob(R, f2.qual, ops == ["global arr name=" + name] or ops in (
                ["global arr name=arr.__qualname__"], ["global arr name=arr.__name__"], ["global arr name=None"]),
                "a universal function must be stored as a reference by its (qualified) name: %s" % ops, f2)
            continue
        reds = [r for r in (reduction(ev) for ev in new) if r]
        ops = [o for o in pops(type("Q", (), {"events": new})()) if o]
        if len(reds) != 1 or len(ops) != 1:
            ctx.ob(R, f2.qual, False, "must store exactly one value: %s" % ops, f2)
            continue
        r = reds[0]
        ctx.ob(R + ".memo", f2.qual, r["obj"] is not None and show(r["obj"]) == "arr", "the object is not registered with "
               "the memo: %s" % ops, f2)
        if nm == "numpydtype":
            ctx.ob(R, f2.qual, show(r["func"]) == D + "_create_dtypemeta" and show(r["args"]) == "(arr.type,)",
                   "a data type class must be stored by its scalar type: %s" % ops, f2)
            continue
        own = "arr.__reduce__()"
        txt = ops[0]
        f, ar, st = [own + "[%d]" % i for i in range(3)]
        dic = ("getattr(arr, '__dict__', None)", "arr.__dict__", "None")
        ok = show(r["func"]) == f and show(r["args"]) == ar and r["state"].op == "tuple" and len(r["state"].a) == 2 and \
            show(r["state"].a[0]) == st and show(r["state"].a[1]) in dic and \
            ("state_setter=" + D + "_set_array_state") in txt
        if ok and show(r["state"].a[1]) == "None":
            ok = F.get("hasattr(arr, '__dict__')") is False or F.get("getattr(arr, '__dict__', None) is None") is True
        ctx.ob(R, f2.qual, ok, "an array must be stored as numpy's own reduction, with its state and instance "
               "dictionary applied after it is known to the memo: %s" % ops, f2)
    if not n:
        raise AnalysisError("handler %s has no path" % f2.qual)


@rule("C22")
def rebuild(ctx):
    R = "C22.rebuild"
    for q, params, arr, state, dic in (
            ("_set_array_state", ("array", "state"), "array", "state[0]", "state[1]"),
            ("_create_array", ("f", "args", "state", "npdict"), "f(*args)", "state", "npdict")):
        for fi in ctx.funcs(D + q):
            for p in ctx.run(fi, names=params, keep=no_trace, track=TRACK_ALL):
                if p.ctl == "raise":
                    continue
                F = facts(p)
                have = F.get("%s is None" % dic)
                if have is None and dic in F:
                    have = not F[dic]       # an empty dictionary changes nothing
                ev = [show(e.t) if e.kind == "call" else "%s %s %s" % (e.kind, show(e.t), show(e.x) if hasattr(e.x, "op") else e.x)
                      for e in p.events]
                ev = [x for x in ev if x != arr]
                st = arr + ".__setstate__(%s)" % state
                upd = [x for x in ev if x.startswith("mut %s.__dict__" % arr) or x.startswith("call %s.__dict__" % arr)]
                ok = st in ev and have is not None and len(ev) == (1 if have else 2) and len(upd) == (0 if have else 1)
                if ok and upd:
                    ok = ev.index(st) < ev.index(upd[0]) and "update" in upd[0] and dic in upd[0]
                if q == "_create_array":
                    ok = ok and show(p.val) == arr
                ctx.ob(R, fi.qual, ok, "must apply the state and then the instance dictionary, if there is one, to the "
                       "array: %s" % ev, fi)
    for fi in ctx.funcs(D + "_create_dtypemeta"):
        for p in ctx.run(fi, names=("scalar_type",), keep=no_trace, track=TRACK_ALL):
            if p.ctl == "raise":
                continue
            F = facts(p)
            unl = F.get("dill._dill.NumpyDType is True")
            none = F.get("scalar_type is None")
            if none is None and "scalar_type" in F:
                none = not F["scalar_type"]
            hook = any(e.kind == "call" and show(e.t.a[0]) == D + "__hook__" for e in p.events)
            v = show(p.val)
            ctx.ob(R, fi.qual, unl is not None and hook >= unl and none is not None and v == (
                "dill._dill.NumpyDType" if none else "type(dill._dill.NumpyDType(scalar_type))"),
                "must give the type of the data type for the scalar type (numpy's dtype for None), importing numpy first "
                "if needed: %s" % v, fi)
    ctx.floor(R, 4)
