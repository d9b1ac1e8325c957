"""Path-partitioned dataflow (value numbering + typestate) over dill's syntax trees.

The engine propagates abstract states through the statements of a function.
An abstract state holds value numbers for the local variables, an abstract
heap for containers created by the function, a set of branch facts and a log
of the relevant effects.  States are partitioned by their effects (the
"property state") and joined at every statement when everything but the facts
agrees, as in ESP-style property simulation.  No constraint solver is used:
branches are correlated only when their conditions have the same value number.
Loops over unknown iterables are summarised by one abstract iteration whose
container updates are recorded as `each` operations.
"""
import ast
import builtins as _bi
import re

from . import live
from . import terms as tm
from .program import AnalysisError, FuncInfo
from .terms import (FALSE, NONE, T, TRUE, attr, call, const, cval, g, is_const, mk, tup)

MAXSTATES = 100000
CROWD = 64          # from this many states on, unreachable objects are ignored when joining
_G = {n: g("builtins." + n) for n in dir(_bi)}

IMPURE_METHODS = {"tell", "read", "readline", "pop", "popitem", "write", "acquire", "release",
                  "getvalue", "__next__", "seek", "flush", "close", "fileno"}
IMPURE_FUNCS = {"builtins.open", "builtins.next", "os.open", "os.fdopen", "io.StringIO",
                "io.BytesIO", "tempfile.NamedTemporaryFile", "tempfile.TemporaryFile",
                "builtins.object", "builtins.iter", "types.ModuleType"}
NORAISE = {"builtins." + n for n in
           ("id", "type", "isinstance", "issubclass", "callable", "hasattr", "len", "repr",
            "locals", "globals", "set", "dict", "list", "tuple", "super", "bool", "str", "iter")}
PURE_BUILTINS = {"builtins." + n for n in
                 ("id", "type", "isinstance", "issubclass", "callable", "len", "repr", "str",
                  "int", "bool", "range", "sorted", "reversed", "zip", "enumerate", "bytes",
                  "max", "min", "abs", "hex", "vars", "dir", "super", "any", "all", "sum",
                  "frozenset", "locals", "globals", "iter", "hasattr", "getattr", "float",
                  "map", "filter", "divmod", "hash", "ord", "chr", "round")}
PURE_METHODS = {"startswith", "endswith", "split", "rsplit", "format", "encode", "decode", "strip",
                "lstrip", "rstrip", "join", "partition", "rpartition", "count", "items", "keys",
                "values", "get", "copy", "lower", "upper", "replace", "find", "index",
                "splitlines", "mro", "splitlines", "issubset", "intersection", "isdigit"}


class HO:
    """abstract heap object"""
    __slots__ = ("kind", "ents", "cls", "depth")

    def __init__(self, kind, ents=(), cls=None, depth=0):
        self.kind, self.ents, self.cls, self.depth = kind, ents, cls, depth

    def key(self):
        return (self.kind, self.ents, self.cls)

    def __eq__(self, o):
        return self is o or (self.kind == o.kind and self.ents == o.ents and self.cls == o.cls)

    def __hash__(self):
        return hash(self.key())


_objs = {}


def objs(t):
    """abstract objects a term refers to"""
    r = _objs.get(t)
    if r is None:
        if t.op == "o":
            r = frozenset((t,))
        else:
            r = frozenset().union(*[objs(x) for x in t.a if isinstance(x, T)])
        _objs[t] = r
    return r


def flat(x):
    if isinstance(x, T):
        yield x
    elif isinstance(x, (tuple, list)):
        for y in x:
            yield from flat(y)


class Ev:
    """one logged effect"""
    __slots__ = ("kind", "t", "x", "line", "mod", "facts", "loops", "fn")

    def __init__(self, kind, t, x, line, mod, facts, loops, fn):
        self.kind, self.t, self.x = kind, t, x
        self.line, self.mod, self.facts, self.loops, self.fn = line, mod, facts, loops, fn

    def key(self):
        return (self.kind, self.t, self.x, self.loops)

    def __repr__(self):
        return "%s:%d %s %s %s" % (self.mod, self.line, self.kind, self.t, self.x or "")


class St:
    __slots__ = ("frames", "heap", "attrs", "items", "facts", "events", "cnt", "cur", "loops",
                 "nf", "pend", "ekey")

    def copy(self):
        n = St()
        n.frames = {k: dict(v) for k, v in self.frames.items()}
        n.heap = dict(self.heap)
        n.attrs = dict(self.attrs)
        n.items = dict(self.items)
        n.facts = self.facts
        n.events = self.events
        n.cnt = dict(self.cnt)
        n.cur = self.cur
        n.loops = self.loops
        n.nf = self.nf
        n.pend = self.pend
        return n


def new_state():
    s = St()
    s.frames, s.heap, s.attrs, s.items = {}, {}, {}, {}
    s.facts, s.events, s.cnt = {}, (), {}
    s.cur, s.loops, s.nf, s.pend = None, (), 0, None
    return s


class Policy:
    """what to inline / record"""

    def __init__(self, vocab=frozenset(), inline=frozenset(), opaque=frozenset(),
                 classes=frozenset(), keep=None, raises="try", types=None, zero=False,
                 keepmarks=False, depth=6, track=None, ids=False, excev=False, unroll=1,
                 local=False, onread=None, lasting=None):
        self.vocab, self.inline_set, self.opaque_set = vocab, inline, opaque
        self.classes = classes          # repo classes whose construction is tracked
        self.keep = keep or (lambda kind, t, x: True)
        self.raises = raises            # 'try' | 'all'
        self.types = types or {}
        self.zero = zero
        self.keepmarks = keepmarks
        self.depth = depth
        self.excev = excev              # log which handler an exception took
        self.local = local              # log the updates of local containers
        self.onread = onread            # called for every attribute read of a parameter
        self.lasting = lasting          # facts that survive an iteration of a while loop
        self.ids = ids                  # show the identity of fresh containers
        self.track = track              # atoms that partition states (never joined)
        self.unroll = unroll            # abstract iterations of a loop (carries flags across)

    def inline(self, qual):
        if qual in self.opaque_set:
            return False
        return qual in self.inline_set or qual not in self.vocab


def receiver(m, b):
    """first arguments of method m called on b, or None"""
    d = [_deco_name(x) for x in m.decos]
    if not d:
        return [b]
    if d == ["staticmethod"]:
        return []
    if d == ["classmethod"]:
        return [g(m.qual.rpartition(".")[0])]
    return None


class Path:
    """a terminated abstract path of the analysed function"""
    __slots__ = ("ctl", "val", "st", "implicit")

    def __init__(self, ctl, val, st, implicit=False):
        self.ctl, self.val, self.st, self.implicit = ctl, val, st, implicit

    @property
    def events(self):
        return self.st.events

    @property
    def facts(self):
        return self.st.facts


EXC_ANY = mk("exc", "*")


def exc_of(term):
    """exception term for `raise <term>`"""
    if term.op == "exc":
        return term
    f = term.a[0] if term.op == "call" else term
    if f.op == "g":
        n = f.a[0]
        return mk("exc", n[9:] if n.startswith("builtins.") else n)
    return EXC_ANY


EXTRA_EXC = {"pickle.PicklingError": ("pickle.PickleError", "Exception"),
             "pickle.UnpicklingError": ("pickle.PickleError", "Exception"),
             "pickle.PickleError": ("Exception",)}


def _bexc(n):
    c = getattr(_bi, n, None)
    return c if isinstance(c, type) and issubclass(c, BaseException) else None


def narrow(typ):
    """a handler type that lets some exceptions pass"""
    if typ.op == "tuple":
        return all(narrow(x) for x in typ.a)
    return not tm.is_g(typ, "builtins.BaseException")


def exc_match(exc, typ):
    """True / False / None(maybe): does an exception `exc` match handler type `typ`"""
    if typ is None:
        return True
    if typ.op == "tuple":
        rs = [exc_match(exc, x) for x in typ.a]
        if any(r is True for r in rs):
            return True
        return False if all(r is False for r in rs) else None
    if typ.op != "g":
        return None
    h = typ.a[0]
    h = h[9:] if h.startswith("builtins.") else h
    if h in ("BaseException", "Exception"):
        return True
    n = exc.a[0]
    if n == "*":
        return None
    if n == h:
        return True
    a, b = _bexc(n), _bexc(h)
    if a and b:
        if issubclass(a, b):
            return True
        if issubclass(b, a):
            return None
        return False
    if n in EXTRA_EXC:
        return h in EXTRA_EXC[n]
    if a or b or h in EXTRA_EXC:
        return False
    return None


class Engine:
    def __init__(self, prog, policy):
        self.prog = prog
        self.pol = policy
        self.collectors = [[]]
        self.stack = []
        self.busy = 0
        self.ctxs = []
        self.fninfo = {}
        self.fnreg = []
        self.fnids = {}
        self.withstack = []
        self.nstates = 0
        self.linear = False
        self.me = None

    # ------------------------------------------------------------------ entry
    def run(self, fi, params=None, self_type=None, pre=None):
        """all terminated paths of function `fi`"""
        self.collectors = [[]]
        self.me = None
        st = new_state()
        fid = self.push_frame(st, fi, None)
        fr = st.frames[fid]
        a = fi.node.args
        params = params or {}
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            fr[x.arg] = params.get(x.arg, mk("p", x.arg))
        if a.vararg:
            fr[a.vararg.arg] = params.get(a.vararg.arg, mk("p", "*" + a.vararg.arg))
        if a.kwarg:
            fr[a.kwarg.arg] = params.get(a.kwarg.arg, mk("p", "**" + a.kwarg.arg))
        if self_type and fi.params:
            self.pol.types[fr[fi.params[0]]] = self_type
        for atom, v in (pre or {}).items():
            st.facts = dict(st.facts)
            st.facts[atom] = v
        self.stack = [fi.node]
        cq = fi.qual.rpartition(".")[0]
        if cq in self.prog.classes and fi.params and not fi.decos:
            self.me = (fr[fi.params[0]], cq)
        outs = self.body(fi, st)
        res = []
        for ctl, s in outs:
            if ctl is None:
                res.append(Path("ret", NONE, s))
            else:
                v = self.reify(ctl[1], s)
                if ctl[0] == "ret" and isinstance(v, T) and v.op in ("not", "is", "in", "any", "all", "hasattr"):
                    d = self.truth(v, s)         # t = a in b; if t: return t  -> return True
                    v = v if d is None else const(d)
                res.append(Path(ctl[0], v, s))
        for exc, s, imp in self.merge_raises(self.collectors[0]):
            res.append(Path("raise", exc, s, imp))
        return [settle(p) for p in res]

    def run_fn(self, fnterm, st0, args):
        """run a closure value (from module-level evaluation) with symbolic args"""
        self.collectors = [[]]
        st = st0.copy()
        st.events, st.facts, st.loops = (), {}, ()
        self.stack = []
        res = []
        fi, fid, dfl = self.fnreg[fnterm.a[0]][0], fnterm.a[1], self.fnreg[fnterm.a[0]][2]
        for v, s in self.call_fi(fi, fid, args, [], st, fi.node, dfl, force=True):
            res.append(Path("ret", v, s))
        for exc, s, imp in self.merge_raises(self.collectors[0]):
            res.append(Path("raise", exc, s, imp))
        return res

    def body(self, fi, st):
        b = fi.node.body
        if isinstance(b, list):
            return self.block(b, [st])
        return [(("ret", v), s) for v, s in self.ev(b, st)]

    def push_frame(self, st, fi, parent):
        fid = st.nf
        st.nf += 1
        st.frames[fid] = {"$fi": fi, "$parent": parent}
        st.cur = fid
        return fid

    def fi_of(self, node, modname, qual):
        fi = self.fninfo.get(node)
        if fi is None:
            fi = FuncInfo(node, modname, qual)
            self.fninfo[node] = fi
        return fi

    # ------------------------------------------------------------ bookkeeping
    def modname(self, st):
        return st.frames[st.cur]["$fi"].module

    def emit(self, st, kind, t, node, x=None):
        if not self.pol.keep(kind, t, x):
            return
        fi = st.frames[st.cur]["$fi"]
        st.events = st.events + (Ev(kind, t, x, getattr(node, "lineno", 0), fi.module,
                                    st.facts, st.loops, fi.qual),)

    def may_raise(self, st, exc=EXC_ANY, implicit=True):
        if implicit and len(self.collectors) == 1 and self.pol.raises != "all":
            return
        self.collectors[-1].append((exc, st.copy(), implicit))

    def may_raise_op(self, st, kind, base, x, node, exc=EXC_ANY):
        """a write that may fail (logged as an attempt when exceptions are logged)"""
        if self.pol.excev and (len(self.collectors) > 1 or self.pol.raises == "all"):
            s1 = st.copy()
            self.emit(s1, "raises", base, node, tup(const(kind), x))
            self.may_raise(s1, exc)
        else:
            self.may_raise(st, exc)

    def drop(self, st, kind, node):
        """forget the locals that are not read again"""
        fr = st.frames[st.cur]
        fi = fr["$fi"]
        cache = self.__dict__.setdefault("_dead", {})
        k = (kind, id(node), id(fi.node))
        if k not in cache:
            cache[k] = (live.dead_at_head if kind == "head" else live.dead_at_raise)(fi, node)
        for n in cache[k]:
            fr.pop(n, None)

    def merge_raises(self, lst, node=None):
        groups = {}
        for exc, s, imp in lst:
            if node is not None:
                self.drop(s, "raise", node)
            k = (exc, imp, self.skey(s, exc, len(lst) > CROWD))
            if k in groups:
                self.join(groups[k], s)
            else:
                groups[k] = s
        return [(k[0], s, k[1]) for k, s in groups.items()]

    def reachable(self, s, ctl):
        """the heap objects that can still be reached"""
        roots = set()
        for f in s.frames.values():
            for v in f.values():
                if isinstance(v, T):
                    roots |= objs(v)
        for tab in (s.attrs, s.items):
            for k, v in tab.items():
                for x in k:
                    if isinstance(x, T):
                        roots |= objs(x)
                if isinstance(v, T):
                    roots |= objs(v)
        for e in s.events:
            roots |= objs(e.t)
            if isinstance(e.x, T):
                roots |= objs(e.x)
        for x in (ctl, s.pend, s.loops, self.withstack, self.ctxs):
            for y in flat(x):
                roots |= objs(y)
        out, todo = {}, list(roots)
        while todo:
            o = todo.pop()
            h = s.heap.get(o)
            if h is None or o in out:
                continue
            out[o] = h.key()
            for y in flat(h.ents):
                todo.extend(objs(y))
        return frozenset(out.items())

    def skey(self, s, ctl=None, crowd=False):
        fr = tuple((fid, tuple(sorted(((n, v) for n, v in f.items() if n[0] != "$"),
                                      key=lambda p: p[0])))
                   for fid, f in sorted(s.frames.items()))
        hp = self.reachable(s, ctl) if crowd and s.heap and not self.busy and not self.pol.track else \
            frozenset((o, h.key()) for o, h in s.heap.items())
        return (s.cur, fr, hp, frozenset(s.attrs.items()), frozenset(s.items.items()),
                tuple(e.key() for e in s.events), s.loops, s.pend,
                frozenset((k, v) for k, v in s.facts.items() if self.pol.track(k))
                if self.pol.track else None)

    def join(self, a, b):
        """join b into a: only facts differ"""
        if a.facts is not b.facts:
            a.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) is v}
        evs = []
        ch = False
        for x, y in zip(a.events, b.events):
            if x is y or x.facts is y.facts:
                evs.append(x)
            else:
                f = {k: v for k, v in x.facts.items() if y.facts.get(k) is v}
                evs.append(Ev(x.kind, x.t, x.x, x.line, x.mod, f, x.loops, x.fn))
                ch = True
        if ch:
            a.events = tuple(evs)
        for k in list(a.cnt):
            a.cnt[k] = max(a.cnt[k], b.cnt.get(k, 0))

    def merge(self, outs, line=None):
        groups = {}
        order = []
        for ctl, s in outs:
            if ctl is None and line is not None:
                fr = s.frames[s.cur]
                fi = fr["$fi"]
                dead = [n for n in fr if n[0] != "$" and n not in fi.captured
                        and n in fi.locals and (fi.lastload.get(n, 0) < line or
                                                fi.lastload.get(n, 0) == line and line not in fi.shared)]
                for n in dead:
                    del fr[n]
            if len(outs) == 1:
                return outs
            k = (ctl, self.skey(s, ctl, len(outs) > CROWD))
            if k in groups:
                self.join(groups[k], s)
            else:
                groups[k] = s
                order.append(k)
        if len(order) > MAXSTATES:
            raise AnalysisError("state cap exceeded")
        return [(k[0], groups[k]) for k in order]

    # --------------------------------------------------------------- branches
    def atom(self, t):
        """(atom, polarity) or a bool"""
        if is_const(t):
            return bool(cval(t))
        op = t.op
        if op == "not":
            r = self.atom(t.a[0])
            return (not r) if isinstance(r, bool) else (r[0], not r[1])
        if op == "call" and tm.is_g(t.a[0], "builtins.len") and len(tm.cargs(t)) == 1:
            return self.atom(tm.cargs(t)[0])
        if op == "call" and tm.is_g(t.a[0], "builtins.bool") and len(tm.cargs(t)) == 1:
            return self.atom(tm.cargs(t)[0])
        if op in ("eq", "lt"):
            a, b = t.a
            def islen(x):
                return x.op == "call" and tm.is_g(x.a[0], "builtins.len")
            if op == "eq":
                for x, y in ((a, b), (b, a)):
                    if islen(x) and y is const(0):
                        r = self.atom(tm.cargs(x)[0])
                        return (not r) if isinstance(r, bool) else (r[0], not r[1])
            elif a is const(0) and islen(b):
                return self.atom(tm.cargs(b)[0])
            elif islen(a) and b is const(1):
                r = self.atom(tm.cargs(a)[0])
                return (not r) if isinstance(r, bool) else (r[0], not r[1])
        if op in ("fn", "fmtd", "exc"):
            return True
        if op in ("tuple", "list", "set", "dict"):
            if not any(x.op in ("each", "upd", "splat", "star", "del", "mut") for x in t.a):
                return len(t.a) > 0
            if any(x.op not in ("each", "upd", "splat", "star", "del", "mut") for x in t.a):
                return True
        return (t, True)

    def nonnone(self, t):
        if t.op in ("add", "binop", "tuple", "list", "dict", "set", "fn", "fmt", "o", "inst", "partial", "bound",
                    "exc", "slice", "bitor", "is", "eq", "lt", "in", "not"):
            return True
        if is_const(t):
            return cval(t) is not None
        if t.op == "g":
            n = t.a[0]
            if n in self.prog.funcs or n in self.prog.classes or n in self.prog.modules:
                return True
            if n.startswith("builtins."):
                return True
            mod = n.rpartition(".")[0]
            return not (mod in self.prog.modules or n.startswith("?"))
        if t.op == "call":
            f = t.a[0]
            if f.op == "g" and (f.a[0] in PURE_BUILTINS - {"builtins.getattr", "builtins.max",
                                                           "builtins.min", "builtins.sum"}
                                or f.a[0] in IMPURE_FUNCS - {"builtins.next"}):
                return True
        return False

    def truth(self, t, st):
        """True/False/None"""
        if t.op == "o":
            h = st.heap.get(t)
            if h and h.kind in ("list", "dict", "set"):
                return self._truth_ents(h.ents)
            return True
        if t.op == "and":
            rs = [self.truth(x, st) for x in t.a]
            if all(r is True for r in rs):
                return True
            return False if any(r is False for r in rs) else None
        if t.op == "or":
            rs = [self.truth(x, st) for x in t.a]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        r = self.atom(t)
        if isinstance(r, bool):
            return r
        a, pol = r
        if a.op == "o":
            v = self.truth(a, st)
            return v if v is None else (v == pol)
        v = self.atom_truth(a, st)
        return v if v is None else (v == pol)

    def _truth_ents(self, ents):
        unk = ("each", "upd", "splat", "star", "del", "mut")
        if any(x.op not in unk for x in ents):
            return None if any(x.op in ("del", "mut") for x in ents) else True
        return False if not ents else None

    def atom_truth(self, a, st):
        v = st.facts.get(a)
        if v is not None:
            return v
        op = a.op
        if op == "is":
            x, y = a.a
            if x is y:
                return True
            if is_const(x) and is_const(y):
                return False
            if y is NONE:
                if self.nonnone(x):
                    return False
                if st.facts.get(x) is True:
                    return False
                for f, fv in st.facts.items():
                    if fv and f.op in ("is", "eq") and f.a[0] is x and is_const(f.a[1]) \
                            and f.a[1] is not NONE:
                        return False
            if x.op == "o" and (y.op == "o" or is_const(y)):
                return False
            for o, z in ((x, y), (y, x)):
                # a fresh allocation is not what a parameter already led to
                if o.op == "o" and z.op in ("p", "attr", "call", "g") and \
                        not any(w.op == "o" for w in tm.subterms(z)):
                    return False
            if is_const(y):
                for f, fv in st.facts.items():
                    if fv and f.op == "is" and f.a[0] is x and is_const(f.a[1]) and f.a[1] is not y:
                        return False
            return None
        if op == "eq":
            x, y = a.a
            if x is y:
                return True
            if is_const(x) and is_const(y):
                return cval(x) == cval(y)
            if x.op == "tuple" and y.op == "tuple" and not any(
                    z.op in ("star", "each") for z in x.a + y.a) and len(x.a) != len(y.a):
                return False
            if is_const(y):
                for f, fv in st.facts.items():
                    if fv and f.op in ("eq", "is") and f.a[0] is x and is_const(f.a[1]) \
                            and f.a[1] is not y and cval(f.a[1]) != cval(y):
                        return False
                if cval(y) is not None and st.facts.get(mk("is", x, NONE)) is True:
                    return False
            return None
        if op == "lt":
            x, y = a.a
            if is_const(x) and is_const(y):
                try:
                    return cval(x) < cval(y)
                except TypeError:
                    return None
            return None
        if op == "in":
            x, y = a.a
            return None
        if op == "hasattr":
            x, y = a.a
            if is_const(y) and isinstance(cval(y), str):
                if is_const(x):
                    return hasattr(cval(x), cval(y))
                if x.op in ("is", "in", "not", "any", "all", "hasattr") or (
                        x.op == "call" and tm.is_g(x.a[0], "builtins.bool")):
                    return hasattr(True, cval(y))
            return None
        if op == "call" and tm.gname(a.a[0]) == "builtins.isinstance" and len(tm.cargs(a)) == 2:
            x, y = tm.cargs(a)
            if st.facts.get(mk("is", x, NONE)) is True and self.concrete_types(y):
                return False
        # plain truthiness
        if st.facts.get(mk("is", a, NONE)) is True or st.facts.get(mk("is", a, FALSE)) is True:
            return False
        if st.facts.get(mk("is", a, TRUE)) is True:
            return True
        for f, fv in st.facts.items():
            if fv and f.op == "eq" and f.a[0] is a and is_const(f.a[1]):
                return bool(cval(f.a[1]))
        if op == "bound" or op == "inst" or op == "partial":
            return True
        if op == "g":
            n = a.a[0]
            if n in self.prog.funcs or n in self.prog.classes or n in self.prog.modules:
                return True
        return None

    def concrete_types(self, y):
        """is None certainly no instance of y?"""
        if y.op == "tuple":
            return all(self.concrete_types(z) for z in y.a)
        n = tm.gname(y)
        return n in ("builtins.str", "builtins.int", "builtins.dict", "builtins.list", "builtins.tuple", "builtins.set",
                     "builtins.type", "builtins.bytes", "types.ModuleType", "types.FunctionType", "types.CodeType",
                     "types.MethodType")

    def branch(self, t, st):
        """list of (bool, state)"""
        if t.op == "and":
            outs, todo = [], [st]
            for x in t.a:
                nxt = []
                for s in todo:
                    for b, s2 in self.branch(x, s):
                        (nxt if b else outs).append(s2 if b else (False, s2))
                todo = nxt
            return outs + [(True, s) for s in todo]
        if t.op == "or":
            outs, todo = [], [st]
            for x in t.a:
                nxt = []
                for s in todo:
                    for b, s2 in self.branch(x, s):
                        if b:
                            outs.append((True, s2))
                        else:
                            nxt.append(s2)
                todo = nxt
            return outs + [(False, s) for s in todo]
        if t.op == "not":
            return [(not b, s) for b, s in self.branch(t.a[0], st)]
        v = self.truth(t, st)
        if v is not None:
            return [(v, st)]
        r = self.atom(t)
        a, pol = r
        if a.op in ("and", "or", "not"):
            return [(b == pol, s) for b, s in self.branch(a, st)]
        s1, s2 = st, st.copy()
        self.assume(s1, a, True)
        self.assume(s2, a, False)
        return [(pol, s1), (not pol, s2)]

    def assume(self, st, a, v):
        f = dict(st.facts)
        f[a] = v
        st.facts = f

    # ------------------------------------------------------------------- heap
    def alloc(self, st, kind, ents=(), cls=None, node=None):
        site = (id(node), kind)
        n = st.cnt.get(site, 0)
        st.cnt[site] = n + 1
        o = mk("o", kind, id(node) if node is not None else 0, n)
        st.heap[o] = HO(kind, tuple(ents), cls, len(st.loops))
        return o

    def hupd(self, st, o, ents):
        h = st.heap[o]
        ents = tuple(ents)
        st.heap[o] = HO(h.kind, ents, h.cls, h.depth)
        if self.pol.local:
            new = ents[len(h.ents):] if ents[:len(h.ents)] == h.ents else ents
            self.emit(st, "local", o, None, tup(*[self.reify(x, st) for x in new]))

    def wrap(self, st, o, ent):
        h = st.heap[o]
        for lp in reversed(st.loops[h.depth:]):
            ent = mk("each", lp, ent)
        return ent

    def reify(self, t, st, _seen=()):
        if not isinstance(t, T):
            return t
        if t.op == "o":
            if t in _seen:
                return mk("cycle")
            h = st.heap.get(t)
            if h is None:
                return t
            if h.kind == "inst":
                return mk("inst", h.cls)
            ents = [self.reify(x, st, _seen + (t,)) for x in h.ents]
            if self.pol.ids and h.kind == "dict":
                return mk("ident", mk("dict", *ents), t)
            return mk(h.kind, *ents)
        if t.op in ("c", "g", "p", "fn", "exc"):
            return t
        na = tuple(self.reify(x, st, _seen) if isinstance(x, T) else x for x in t.a)
        if all(x is y for x, y in zip(na, t.a)):
            return t
        return mk(t.op, *na)

    # --------------------------------------------------------------- statements
    def block(self, stmts, states):
        done = []
        cur = [(None, s) for s in states]
        for stn in stmts:
            nxt = []
            for _, s in cur:
                nxt.extend(self.stmt(stn, s))
            nxt = self.merge(nxt, getattr(stn, "end_lineno", None))
            done.extend(o for o in nxt if o[0] is not None)
            cur = [o for o in nxt if o[0] is None]
            self.nstates = max(self.nstates, len(cur) + len(done))
            if not cur:
                break
        return self.merge(done + cur) if len(done) + len(cur) > 1 else done + cur

    def stmt(self, n, st):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise AnalysisError("unsupported statement %s at line %d" % (type(n).__name__, n.lineno))
        return m(n, st)

    def s_Pass(self, n, st):
        return [(None, st)]

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [(None, st)]
        if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            return self.do_yield(n.value, st, None)
        return [(None, s) for _, s in self.ev(n.value, st)]

    def do_yield(self, n, st, target):
        outs = []
        vals = self.ev(n.value, st) if n.value is not None else [(NONE, st)]
        for v, s in vals:
            frame = s.cur
            if self.withstack and self.withstack[-1][0] == frame:
                # splice the with-body here
                ws = self.withstack.pop()
                s.cur = ws[1]
                body_outs = self.spliced(ws, v, s)
                self.withstack.append(ws)
                for ctl, s2 in body_outs:
                    s2.cur = frame
                    if ctl is None:
                        outs.append((None, s2))
                    elif ctl[0] == "raise":
                        if len(self.collectors) > 1 or True:
                            outs.append((ctl, s2))
                    else:
                        s2.pend = ctl
                        outs.append((None, s2))
            else:
                self.emit(s, "yield", self.reify(v, s), n)
                s2 = s
                if self.pol.raises == "all" or len(self.collectors) > 1:
                    self.may_raise(s2, EXC_ANY)
                outs.append((None, s2))
        if target is not None:
            o2 = []
            for ctl, s in outs:
                if ctl is None:
                    o2.extend((None, x) for x in self.assign(target, mk("yielded"), s, n))
                else:
                    o2.append((ctl, s))
            return o2
        return outs

    def spliced(self, ws, v, s):
        """run a with-body at the yield point of a spliced context manager"""
        _, caller, node, rest, fcur = ws
        outs = []
        col = []
        self.collectors.append(col)
        states = [s]
        if node.items[rest - 1].optional_vars is not None:
            states = self.assign(node.items[rest - 1].optional_vars, v, s, node)
        for s1 in states:
            outs.extend(self.with_from(node, rest, s1))
        self.collectors.pop()
        for exc, s2, imp in self.merge_raises(col):
            outs.append((("raise", exc if not imp else mk("exc", *(exc.a + ("i",)))), s2))
        return outs

    def s_Assign(self, n, st):
        if isinstance(n.value, (ast.Yield, ast.YieldFrom)) and len(n.targets) == 1:
            return self.do_yield(n.value, st, n.targets[0])
        outs = []
        for v, s in self.ev(n.value, st):
            sts = [s]
            for t in n.targets:
                sts = [s3 for s2 in sts for s3 in self.assign(t, v, s2, n)]
            outs.extend((None, x) for x in sts)
        return outs

    def s_AnnAssign(self, n, st):
        if n.value is None:
            return [(None, st)]
        return [(None, s2) for v, s in self.ev(n.value, st)
                for s2 in self.assign(n.target, v, s, n)]

    def s_AugAssign(self, n, st):
        outs = []
        load = ast.copy_location(_as_load(n.target), n.target)
        for a, s in self.ev(load, st):
            for b, s2 in self.ev(n.value, s):
                if a.op == "o" and s2.heap[a].kind in ("list", "set", "dict"):
                    k = s2.heap[a].kind
                    if isinstance(n.op, ast.Add) and k == "list":
                        self.extend(s2, a, b)
                        outs.append((None, s2))
                        continue
                    if isinstance(n.op, ast.BitOr) and k in ("set", "dict"):
                        if k == "dict":
                            self.dict_update(s2, a, b)
                        else:
                            self.extend(s2, a, b)
                        outs.append((None, s2))
                        continue
                v = self.binop(n.op, a, b, s2)
                if isinstance(n.op, (ast.BitOr, ast.Sub, ast.BitAnd)) and a.op not in ("o", "c"):
                    self.emit(s2, "aug", a, n, v)
                outs.extend((None, x) for x in self.assign(n.target, v, s2, n))
        return outs

    def assign(self, t, v, st, node):
        """store value v; returns states"""
        if isinstance(t, ast.Name):
            fr = st.frames[st.cur]
            fi = fr["$fi"]
            if t.id in fi.globals:
                name = fi.module + "." + t.id
                self.emit(st, "storeglobal", g(name), node, self.reify(v, st))
                st.attrs[(g(fi.module), t.id)] = v
                return [st]
            if t.id in fi.nonlocals:
                p = fr["$parent"]
                while p is not None:
                    if t.id in st.frames[p]:
                        st.frames[p][t.id] = v
                        break
                    p = st.frames[p]["$parent"]
                return [st]
            fr[t.id] = v
            return [st]
        if isinstance(t, ast.Attribute):
            outs = []
            for b, s in self.ev(t.value, st):
                self.store_attr(s, b, t.attr, v, node)
                outs.append(s)
            return outs
        if isinstance(t, ast.Subscript):
            outs = []
            for b, s in self.ev(t.value, st):
                for k, s2 in self.ev(t.slice, s):
                    self.store_item(s2, b, k, v, node)
                    outs.append(s2)
            return outs
        if isinstance(t, (ast.Tuple, ast.List)):
            sts = [st]
            parts = self.unpack(v, t.elts, st)
            for sub, pv in zip(t.elts, parts):
                if isinstance(sub, ast.Starred):
                    sub = sub.value
                sts = [s2 for s in sts for s2 in self.assign(sub, pv, s, node)]
            return sts
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, node)
        raise AnalysisError("unsupported assignment target %s" % type(t).__name__)

    def unpack(self, v, elts, st):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        known = None
        if v.op == "tuple" and not any(x.op in ("star", "each") for x in v.a):
            known = list(v.a)
        elif v.op == "o" and st.heap[v].kind == "list":
            e = st.heap[v].ents
            if not any(x.op in ("each", "splat", "mut", "upd") for x in e):
                known = list(e)
        if star:
            i = star[0]
            after = n - i - 1
            if known is not None and len(known) >= n - 1:
                mid = known[i:len(known) - after]
                return known[:i] + [tup(*mid)] + known[len(known) - after:]
            return ([self.subscript(v, const(j), st) for j in range(i)]
                    + [self.subscript(v, mk("slice", const(i), const(-after) if after else NONE,
                                            NONE), st)]
                    + [self.subscript(v, const(j - n), st) for j in range(i + 1, n)])
        if known is not None and len(known) == n:
            return known
        return [self.subscript(v, const(j), st) for j in range(n)]

    def store_attr(self, st, b, name, v, node):
        st.attrs[(b, name)] = v
        self.emit(st, "setattr", b if b.op != "o" else self.reify(b, st) if st.heap[b].kind != "inst" else b,
                  node, tup(const(name), self.reify(v, st)))

    def store_item(self, st, b, k, v, node):
        if b.op == "o" and b in st.heap:
            h = st.heap[b]
            if h.kind == "dict":
                self.dict_set(st, b, k, v)
                return
            self.hupd(st, b, h.ents + (mk("mut", "setitem", k, v),))
            return
        if b.op == "call" and tm.is_g(b.a[0], "builtins.globals"):
            b = attr(g(self.modname(st)), "__dict__")
        st.items[(b, k)] = v
        self.emit(st, "setitem", b, node, tup(self.reify(k, st), self.reify(v, st)))

    def s_Delete(self, n, st):
        sts = [st]
        for t in n.targets:
            nxt = []
            for s in sts:
                if isinstance(t, ast.Name):
                    s.frames[s.cur].pop(t.id, None)
                    nxt.append(s)
                elif isinstance(t, ast.Attribute):
                    for b, s2 in self.ev(t.value, s):
                        s2.attrs.pop((b, t.attr), None)
                        self.may_raise(s2, mk("exc", "AttributeError"))
                        self.emit(s2, "delattr", b, n, const(t.attr))
                        nxt.append(s2)
                elif isinstance(t, ast.Subscript):
                    for b, s2 in self.ev(t.value, s):
                        for k, s3 in self.ev(t.slice, s2):
                            self.may_raise_op(s3, "delitem", self.reify(b, s3), self.reify(k, s3), n,
                                              mk("exc", "KeyError"))
                            self.del_item(s3, b, k, n)
                            nxt.append(s3)
                elif isinstance(t, ast.Tuple):
                    for e in t.elts:
                        for _, s2 in self.s_Delete(ast.Delete(targets=[e], lineno=n.lineno,
                                                              end_lineno=n.end_lineno), s):
                            s = s2
                    nxt.append(s)
            sts = nxt
        return [(None, s) for s in sts]

    def del_item(self, st, b, k, node):
        if b.op == "o" and b in st.heap and st.heap[b].kind == "dict":
            self.dict_del(st, b, k)
            return
        st.items.pop((b, k), None)
        self.emit(st, "delitem", b, node, self.reify(k, st))

    def s_Return(self, n, st):
        if n.value is None:
            return [(("ret", NONE), st)]
        return [(("ret", v), s) for v, s in self.ev(n.value, st)]

    def s_Raise(self, n, st):
        if n.exc is None:
            cur = st.frames[st.cur].get("$exc", EXC_ANY)
            return [(("raise", cur), st)]
        outs = []
        for v, s in self.ev(n.exc, st):
            self.emit(s, "raise", v, n)
            outs.append((("raise", exc_of(v)), s))
        return outs

    def s_If(self, n, st):
        outs = []
        if self.linear and st.cur == self.linear_frame:
            for v, s in self.ev(n.test, st)[:1]:
                t = self.truth(v, s)
                if t is not False:
                    outs = self.block(n.body, [s])
                    s = outs[0][1] if outs else s
                if t is not True:
                    outs = self.block(n.orelse, [s])
                    s = outs[0][1] if outs else s
                return [(None, s)]
        for b, s in self.cond(n.test, st):
            outs.extend(self.block(n.body if b else n.orelse, [s]))
        return outs

    def cond(self, e, st):
        """branch on an expression"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not b, s) for b, s in self.cond(e.operand, st)]
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            outs, todo = [], [st]
            for x in e.values:
                nxt = []
                for s in todo:
                    for b, s2 in self.cond(x, s):
                        if b == isand:
                            nxt.append(s2)
                        else:
                            outs.append((not isand, s2))
                todo = nxt
            return outs + [(isand, s) for s in todo]
        return [r for v, s in self.ev(e, st) for r in self.branch(self.norm_cond(v, s), s)]

    def norm_cond(self, v, st):
        return v

    def s_Assert(self, n, st):
        outs = []
        for b, s in self.cond(n.test, st):
            if b:
                outs.append((None, s))
            else:
                outs.append((("raise", mk("exc", "AssertionError")), s))
        return outs

    def bind_import(self, name, v, st, node):
        if name in st.frames[st.cur]["$fi"].globals:
            self.assign(ast.Name(name, ast.Store()), v, st, node)
        else:
            st.frames[st.cur][name] = v

    def s_Import(self, n, st):
        for al in n.names:
            if al.asname:
                self.bind_import(al.asname, g(al.name), st, n)
            else:
                nm = al.name.split(".")[0]
                self.bind_import(nm, g(nm), st, n)
        self.may_raise(st, mk("exc", "ImportError"))
        return [(None, st)]

    def s_ImportFrom(self, n, st):
        mod = self.modname(st)
        self.may_raise(st, mk("exc", "ImportError"))
        for al in n.names:
            self.bind_import(al.asname or al.name,
                             self.prog.resolve_from(mod, (n.level, n.module, al.name)), st, n)
        return [(None, st)]

    def s_Global(self, n, st):
        return [(None, st)]

    s_Nonlocal = s_Global

    def s_Break(self, n, st):
        return [(("break", None), st)]

    def s_Continue(self, n, st):
        return [(("cont", None), st)]

    def s_FunctionDef(self, n, st):
        outs = []
        for v, s in self.closure(n, st):
            sts = [(v, s)]
            for d in reversed(n.decorator_list):
                nxt = []
                for v1, s1 in sts:
                    for dv, s2 in self.ev(d, s1):
                        nxt.extend(self.docall(dv, [v1], [], s2, d))
                sts = nxt
            for v1, s1 in sts:
                keep = v1 if v1.op in ("fn", "bound", "partial") else v
                if n.decorator_list and v1.op != "fn":
                    keep = v
                s1.frames[s1.cur][n.name] = keep
                outs.append((None, s1))
        return outs

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n, st):
        st.frames[st.cur][n.name] = mk("cls", st.frames[st.cur]["$fi"].qual + "." + n.name)
        return [(None, st)]

    def closure(self, n, st):
        fr = st.frames[st.cur]
        qual = fr["$fi"].qual + "." + getattr(n, "name", "<lambda>")
        fi = self.fi_of(n, fr["$fi"].module, qual)
        sts = [([], st)]
        exprs = list(n.args.defaults) + [k for k in n.args.kw_defaults if k is not None]
        for e in exprs:
            sts = [(vs + [v], s2) for vs, s in sts for v, s2 in self.ev(e, s)]
        outs = []
        for vs, s in sts:
            k = (n, tuple(vs))
            i = self.fnids.get(k)
            if i is None:
                i = len(self.fnreg)
                self.fnids[k] = i
                self.fnreg.append((fi, s.cur, tuple(vs)))
            s.frames[s.cur]["$cap"] = True
            outs.append((mk("fn", i, s.cur), s))
        return outs

    def s_Try(self, n, st):
        if self.linear and st.cur == self.linear_frame:
            s = st
            for blk in [n.body] + [h.body for h in n.handlers] + [n.orelse, n.finalbody]:
                o = self.block(blk, [s])
                s = o[0][1] if o else s
            return [(None, s)]
        if n.finalbody:
            inner = ast.Try(body=n.body, handlers=n.handlers, orelse=n.orelse, finalbody=[],
                            lineno=n.lineno, end_lineno=n.end_lineno)
            inner = self.memo_node(n, inner)
            col = []
            self.collectors.append(col)
            if n.handlers:
                outs = self.s_Try(inner, st)
            else:
                outs = self.block(n.body, [st])
            self.collectors.pop()
            res = []
            for ctl, s in outs:
                for c2, s2 in self.block(n.finalbody, [s]):
                    res.append((c2 if c2 is not None else ctl, s2))
            for exc, s, imp in self.merge_raises(col):
                for c2, s2 in self.block(n.finalbody, [s]):
                    if c2 is not None:
                        res.append((c2, s2))
                    else:
                        self.reraise(s2, exc, imp)
            return res
        col = []
        self.collectors.append(col)
        outs = self.block(n.body, [st])
        self.collectors.pop()
        res = []
        raised = list(col)
        for ctl, s in outs:
            if ctl is None:
                res.extend(self.block(n.orelse, [s]) if n.orelse else [(None, s)])
            elif ctl[0] == "raise":
                raised.append((ctl[1], s, False))
            else:
                res.append((ctl, s))
        for exc, s, imp in self.merge_raises(raised, n):
            self.handle(n.handlers, exc, s, imp, res)
        return res

    def memo_node(self, key, node):
        d = self.__dict__.setdefault("_synth", {})
        return d.setdefault(key, node)

    def reraise(self, st, exc, imp):
        if imp and len(self.collectors) == 1 and self.pol.raises != "all":
            return
        self.collectors[-1].append((exc, st, imp))

    def handle(self, handlers, exc, st, imp, res):
        s = st
        base = mk("exc", exc.a[0])
        for h in handlers:
            typ = None
            if h.type is not None:
                tv = self.ev(h.type, s)
                if not tv:
                    return
                typ, s = tv[0]
            m = exc_match(base, typ)
            if m is True and base is EXC_ANY and self.pol.raises == "all" and typ is not None and \
                    narrow(typ):
                m = None            # KeyboardInterrupt, SystemExit, GeneratorExit
            if m is False:
                continue
            s1 = s.copy() if m is None else s
            if self.pol.excev:
                self.emit(s1, "except", typ if typ is not None else mk("g", "BaseException"), h, exc)
            fr = s1.frames[s1.cur]
            old = fr.get("$exc")
            fr["$exc"] = exc
            if h.name:
                fr[h.name] = base
            for ctl, s2 in self.block(h.body, [s1]):
                f2 = s2.frames.get(s1.cur)
                if f2 is not None:
                    if old is None:
                        f2.pop("$exc", None)
                    else:
                        f2["$exc"] = old
                if ctl is not None and ctl[0] == "raise" and imp and ctl[1] is exc:
                    self.reraise(s2, exc, imp)
                else:
                    res.append((ctl, s2))
            if m is True:
                return
        self.reraise(s, exc, imp)

    # ---- with
    def s_With(self, n, st):
        return self.with_from(n, 0, st)

    def with_from(self, n, i, st):
        if i >= len(n.items):
            return self.block(n.body, [st])
        item = n.items[i]
        outs = []
        for cv, s in self.ev_ctx(item.context_expr, st):
            kind, val, s = cv[0], cv[1], s
            if kind == "gen":
                outs.extend(self.splice(n, i, val, s))
                continue
            ctx = val
            rctx = self.reify(ctx, s)
            self.emit(s, "with+", rctx, n)
            fname = tm.gname(ctx.a[0]) if ctx.op == "call" else None
            fileish = ctx.op in ("o", "p") or fname in IMPURE_FUNCS or (
                ctx.op == "call" and ctx.a[0].op == "attr")
            bound = ctx if fileish else mk("enter", rctx)
            enter = self.find_method(ctx, "__enter__", s)
            starts = [(bound, s)]
            if enter is not None and self.can_inline(enter):
                starts = self.call_fi(enter, None, [ctx], [], s, n)
            col = []
            self.collectors.append(col)
            self.ctxs.append(ctx)
            inner = []
            for bv, s1 in starts:
                sts = self.assign(item.optional_vars, bv, s1, n) if item.optional_vars else [s1]
                for s2 in sts:
                    inner.extend(self.with_from(n, i + 1, s2))
            self.collectors.pop()
            self.ctxs.pop()
            exitm = self.find_method(ctx, "__exit__", s)
            def leave(s2):
                if exitm is not None and self.can_inline(exitm):
                    return [x for _, x in self.call_fi(
                        exitm, None, [ctx, mk("exci"), mk("exci"), mk("exci")], [], s2, n)]
                self.emit(s2, "with-", rctx, n)
                return [s2]
            swallow = fname is not None and fname.endswith("suppress")
            for ctl, s2 in inner:
                for s3 in leave(s2):
                    if ctl is not None and ctl[0] == "raise" and swallow:
                        ctl = None
                    outs.append((ctl, s3))
            for exc, s2, imp in self.merge_raises(col):
                for s3 in leave(s2):
                    if swallow:
                        outs.append((None, s3))
                    else:
                        self.reraise(s3, exc, imp)
        return outs

    def can_inline(self, fi):
        return fi.node not in self.stack and len(self.stack) < self.pol.depth + 4 \
            and self.pol.inline(fi.qual)

    def ev_ctx(self, e, st):
        """evaluate a context expression; recognise repo generator context managers"""
        if isinstance(e, ast.Call):
            outs = []
            for f, s in self.ev(e.func, st):
                fi, fid, dfl = self.callable_fi(f, s)
                if fi is not None and fi.isgen and any(
                        _deco_name(d) in ("contextmanager",) for d in fi.decos) \
                        and self.can_inline(fi):
                    for args, kws, s2 in self.ev_args(e, s):
                        outs.append((("gen", (fi, fid, dfl, args, kws)), s2))
                else:
                    for args, kws, s2 in self.ev_args(e, s):
                        for v, s3 in self.docall(f, args, kws, s2, e):
                            outs.append((("val", v), s3))
            return outs
        return [(("val", v), s) for v, s in self.ev(e, st)]

    def splice(self, n, i, val, st):
        fi, fid, dfl, args, kws = val
        caller = st.cur
        frame = self.bind(fi, fid, args, kws, st, dfl)
        if frame is None:
            raise AnalysisError("cannot bind context manager %s" % fi.qual)
        st.cur = frame
        self.stack.append(fi.node)
        self.withstack.append((frame, caller, n, i + 1, frame))
        col = []
        self.collectors.append(col)
        outs = self.block(fi.node.body, [st])
        self.collectors.pop()
        self.withstack.pop()
        self.stack.pop()
        res = []
        for ctl, s in outs:
            s.cur = caller
            s.frames.pop(frame, None)
            pend, s.pend = s.pend, None
            if ctl is not None and ctl[0] == "raise":
                exc = ctl[1]
                if len(exc.a) > 1:
                    self.reraise(s, mk("exc", exc.a[0]), True)
                else:
                    res.append((ctl, s))
            else:
                res.append((pend, s))
        for exc, s, imp in self.merge_raises(col):
            s.cur = caller
            s.frames.pop(frame, None)
            if len(exc.a) > 1:
                exc, imp = mk("exc", exc.a[0]), True
            self.reraise(s, exc, imp)
        return res

    # ---- loops
    def s_For(self, n, st):
        outs = []
        for it, s in self.ev(n.iter, st):
            seq = self.known_seq(it, s)
            if seq is not None and len(seq) <= 32:
                outs.extend(self.unrolled(n, seq, s))
            else:
                outs.extend(self.abstract_for(n, it, s))
        return outs

    def known_seq(self, it, st):
        bad = ("star", "each", "splat", "mut", "upd", "del")
        if it.op in ("tuple", "list", "set"):
            return None if any(x.op in bad for x in it.a) else list(it.a)
        if it.op == "o":
            h = st.heap[it]
            if h.kind in ("list", "set") and not any(x.op in bad for x in h.ents):
                return list(h.ents)
            if h.kind == "dict" and all(x.op == "kv" for x in h.ents):
                return [x.a[0] for x in h.ents]
            return None
        if it.op == "dict" and all(x.op == "kv" for x in it.a):
            return [x.a[0] for x in it.a]
        if it.op == "c" and isinstance(cval(it), str) and 0 < len(cval(it)) <= 8:
            return [const(c) for c in cval(it)]
        if it.op == "call":
            f, a = it.a[0], tm.cargs(it)
            n = tm.gname(f)
            if n in ("builtins.iter", "builtins.list", "builtins.tuple", "builtins.sorted") \
                    and len(a) == 1:
                r = self.known_seq(a[0], st)
                if n == "builtins.sorted" and r is not None:
                    if it.a[2].a or not all(is_const(x) and isinstance(cval(x), str) for x in r):
                        return None
                    r = sorted(r, key=cval)
                return r
            if n == "builtins.reversed" and len(a) == 1:
                r = self.known_seq(a[0], st)
                return r[::-1] if r is not None else None
            if n == "builtins.enumerate" and a:
                r = self.known_seq(a[0], st)
                return [tup(const(i), x) for i, x in enumerate(r)] if r is not None else None
            if n == "builtins.zip":
                rs = [self.known_seq(x, st) for x in a]
                if rs and all(r is not None for r in rs):
                    return [tup(*xs) for xs in zip(*rs)]
            if n == "builtins.range" and all(is_const(x) for x in a):
                r = list(range(*[cval(x) for x in a]))
                return [const(i) for i in r] if len(r) <= 16 else None
            if f.op == "attr" and f.a[1] in ("items", "keys", "values") and not a:
                d = f.a[0]
                ents = None
                if d.op == "o" and st.heap[d].kind == "dict":
                    ents = st.heap[d].ents
                elif d.op == "dict":
                    ents = d.a
                if ents is not None and all(x.op == "kv" for x in ents):
                    if f.a[1] == "items":
                        return [tup(*x.a) for x in ents]
                    return [x.a[0 if f.a[1] == "keys" else 1] for x in ents]
        return None

    def nonempty(self, it, st):
        """a sequence with at least one element"""
        if it.op == "o" and it in st.heap and st.heap[it].kind == "list":
            ents = st.heap[it].ents
        elif it.op == "list":
            ents = it.a
        else:
            return it.op == "call" and it.a[0].op == "attr" and it.a[0].a[1] == "split" and len(tm.cargs(it)) > 0
        return any(x.op not in ("star", "each", "splat", "mut", "upd", "del") for x in ents) and \
            not any(x.op in ("mut", "upd", "del") for x in ents)

    def unrolled(self, n, seq, st):
        done, cur = [], [st]
        for x in seq:
            nxt = []
            for s in cur:
                for s1 in self.assign(n.target, x, s, n):
                    for ctl, s2 in self.block(n.body, [s1]):
                        if ctl is None or ctl[0] == "cont":
                            nxt.append((None, s2))
                        elif ctl[0] == "break":
                            done.append((None, s2))
                        else:
                            done.append((ctl, s2))
            cur = [s for _, s in self.merge(nxt, None)]
        for s in cur:
            if n.orelse:
                done.extend(self.block(n.orelse, [s]))
            else:
                done.append((None, s))
        return done

    def strip_iter(self, it):
        while it.op == "call" and tm.gname(it.a[0]) in (
                "builtins.iter", "builtins.list", "builtins.tuple", "builtins.sorted",
                "builtins.set") and len(tm.cargs(it)) == 1 and not it.a[2].a:
            it = tm.cargs(it)[0]
        if it.op in ("list", "tuple") and len(it.a) == 1 and it.a[0].op == "splat":
            return self.strip_iter(it.a[0].a[0])
        return it

    def reordered(self, it):
        n = tm.gname(it.a[0]) if it.op == "call" else None
        if n in ("builtins.sorted", "builtins.reversed", "builtins.set", "builtins.frozenset"):
            return True
        return n in ("builtins.iter", "builtins.list", "builtins.tuple") and len(tm.cargs(it)) == 1 and \
            self.reordered(tm.cargs(it)[0])

    def elem_of(self, it, st):
        """abstract element of iterable `it`"""
        it = self.strip_iter(it)
        if it.op == "call":
            n, a = tm.gname(it.a[0]), tm.cargs(it)
            if n == "builtins.enumerate":
                return tup(mk("idx", a[0]), self.elem_of(a[0], st))
            if n == "builtins.zip":
                # reordering one of the sequences changes the pairs
                return tup(*[mk("elem", x) if self.reordered(x) else self.elem_of(x, st) for x in a])
            if n == "builtins.reversed":
                return self.elem_of(a[0], st)
            f = it.a[0]
            if f.op == "attr" and f.a[1] == "items" and not a:
                e = mk("elem", f.a[0])
                return tup(e, mk("sub", f.a[0], e))
            if f.op == "attr" and f.a[1] == "keys" and not a:
                return mk("elem", f.a[0])
        if it.op in ("list", "tuple") and len(it.a) == 1 and it.a[0].op == "each":
            return it.a[0].a[1]
        return mk("elem", it)

    def abstract_for(self, n, it, st):
        it = self.reify(it, st)
        elem = self.elem_of(it, st)
        key = mk("loop", self.strip_iter(it))
        has_exit = _has_exit(n.body) or bool(n.orelse)
        done = []
        if has_exit and not self.nonempty(it, st) or self.pol.zero:
            s0 = st.copy()
            done.extend(self.block(n.orelse, [s0]) if n.orelse else [(None, s0)])
        cur = [st]
        for i in range(self.pol.unroll):
            nxt = []
            el = elem if not i else tm.subst(
                elem, lambda t: mk("elem", mk("next%d" % i, *t.a)) if t.op == "elem" else t)
            for s in cur:
                s.loops = s.loops + (key,)
                if self.pol.keepmarks:
                    self.emit(s, "loop+", key, n)
                self.may_raise(s, EXC_ANY)
                for s1 in self.assign(n.target, el, s, n):
                    for ctl, s2 in self.block(n.body, [s1]):
                        if self.pol.keepmarks:
                            self.emit(s2, "loop-", key, n)
                        s2.loops = s2.loops[:-1]
                        if ctl is None or ctl[0] == "cont":
                            if i + 1 < self.pol.unroll:
                                nxt.append(s2.copy())
                            done.extend(self.block(n.orelse, [s2]) if n.orelse else [(None, s2)])
                        elif ctl[0] == "break":
                            done.append((None, s2))
                        else:
                            done.append((ctl, s2))
            cur = nxt
        return done

    def s_While(self, n, st):
        done, cur = [], [st]
        key = mk("loop", const("while"))
        for i in range(3):
            nxt = []
            for s in cur:
                for b, s1 in self.cond(n.test, s):
                    if not b:
                        done.extend(self.block(n.orelse, [s1]) if n.orelse else [(None, s1)])
                        continue
                    if i == 2:
                        continue
                    s1.loops = s1.loops + (key,)
                    if self.pol.keepmarks:
                        self.emit(s1, "loop+", key, n)
                    for ctl, s2 in self.block(n.body, [s1]):
                        if self.pol.keepmarks:
                            self.emit(s2, "loop-", key, n)
                        s2.loops = s2.loops[:-1]
                        # facts about the condition do not survive an iteration
                        if ctl is None or ctl[0] == "cont":
                            nxt.append(s2)
                        elif ctl[0] == "break":
                            done.append((None, s2))
                        else:
                            done.append((ctl, s2))
            for s in nxt:
                s.facts = self.forget_loop(s)
                self.drop(s, "head", n)
                if not self.busy:       # what only the last iteration could reach is gone
                    alive = {o for o, _ in self.reachable(s, None)}
                    for o in [o for o in s.heap if o not in alive]:
                        del s.heap[o]
            cur = [s for _, s in self.merge([(None, s) for s in nxt])]
        if not done:
            # loop whose exit was not reached within the bound: leave it anyway
            done = [(None, s) for s in cur]
        return done

    def forget_loop(self, s):
        keep = self.pol.lasting
        return {k: v for k, v in s.facts.items() if keep(k)} if keep else {}

    # -------------------------------------------------------------- expressions
    def ev(self, n, st):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise AnalysisError("unsupported expression %s at line %d"
                                % (type(n).__name__, n.lineno))
        return m(n, st)

    def evs(self, nodes, st):
        outs = [([], st)]
        for n in nodes:
            outs = [(vs + [v], s2) for vs, s in outs for v, s2 in self.ev(n, s)]
        return outs

    def e_Constant(self, n, st):
        return [(const(n.value), st)]

    def e_Name(self, n, st):
        name = n.id
        fr = st.frames[st.cur]
        if name in fr:
            return [(fr[name], st)]
        fi = fr["$fi"]
        if name in fi.locals and not getattr(fi, "ismodule", False):
            self.may_raise(st, mk("exc", "UnboundLocalError"), implicit=False)
            return []
        p = fr["$parent"]
        while p is not None:
            f = st.frames.get(p)
            if f is None:
                break
            if name in f:
                return [(f[name], st)]
            p = f["$parent"]
        t = st.attrs.get((g(fi.module), name))
        if t is not None:
            return [(t, st)]
        return [(self.prog.resolve(fi.module, name), st)]

    def e_Attribute(self, n, st):
        outs = []
        for b, s in self.ev(n.value, st):
            outs.append((self.getattr(b, n.attr, s), s))
        return outs

    def getattr(self, b, name, st, raising=True):
        v = st.attrs.get((b, name))
        if v is not None:
            return v
        if b.op == "g":
            r = self.prog.getattr_g(b, name)
            if r.op == "attr" and len(self.collectors) > 1:
                self.may_raise(st, mk("exc", "AttributeError"))
            return r
        if b.op == "o" and st.heap[b].kind == "inst":
            cq = st.heap[b].cls
            m = self.prog.method(cq, name)
            if m is not None:
                if any(_deco_name(d) == "property" for d in m.decos):
                    if self.can_inline(m):
                        rs = self.call_fi(m, None, [b], [], st.copy(), m.node)
                        if len(rs) == 1:
                            return rs[0][0]
                    return attr(b, name)
                return mk("bound", b, m.qual)
            ci = self.prog.cls(cq)
            if ci and name in ci.members and len(ci.members[name]) == 1 \
                    and ci.members[name][0][0] == "assign" \
                    and isinstance(ci.members[name][0][1], ast.Constant):
                return const(ci.members[name][0][1].value)
            if ci and name in ci.members and ci.members[name][0][0] == "from":
                return self.prog.dotted(cq, name)
            return attr(b, name)
        if b.op in ("o", "list", "dict", "set", "tuple"):
            return attr(b, name)
        if b.op == "exc" or b.op == "c":
            return attr(b, name)
        if self.pol.onread is not None and b.op == "p":
            self.pol.onread(st, b, name)
        if raising and name not in ("__class__", "__dict__", "__name__", "close"):
            self.may_raise(st, EXC_ANY)
        return attr(b, name)

    def e_Subscript(self, n, st):
        outs = []
        for b, s in self.ev(n.value, st):
            for k, s2 in self.ev(n.slice, s):
                v = s2.items.get((b, k))
                if v is None:
                    forks = self.pick(b, k, s2)
                    if forks is not None:
                        for v, s3 in forks:
                            if v is None:
                                self.may_raise(s3, mk("exc", "KeyError"), implicit=False)
                            else:
                                outs.append((v, s3))
                        continue
                    if not (b.op == "tuple"):
                        exc = "KeyError"
                        if is_const(k) and isinstance(cval(k), int):
                            exc = "IndexError"
                        self.may_raise(s2, mk("exc", exc) if b.op == "o" else EXC_ANY
                                       if exc == "IndexError" else mk("exc", "KeyError"))
                    v = self.subscript(b, k, s2)
                outs.append((v, s2))
        return outs

    BOOLS = ("is", "eq", "lt", "in", "not", "hasattr", "any", "all", "and", "or")

    def pick(self, b, k, st):
        """an unknown key into a literal table: [(value or None if absent, state)]; None if it is no such table"""
        if is_const(k):
            return None
        isb = k.op in self.BOOLS or (k.op == "call" and tm.gname(k.a[0]) in (
            "builtins.bool", "builtins.isinstance", "builtins.issubclass", "builtins.callable"))
        seq = b.a if b.op in ("tuple", "list") else st.heap[b].ents if b.op == "o" and st.heap[b].kind == "list" else None
        if seq is not None:
            if not isb or len(seq) != 2 or any(x.op in ("star", "each", "splat", "mut") for x in seq):
                return None
            return [(seq[1] if v else seq[0], s) for v, s in self.branch(k, st)]
        ents = b.a if b.op == "dict" else st.heap[b].ents if b.op == "o" and st.heap[b].kind == "dict" else ()
        if not ents or len(ents) > 8 or any(
                e.op != "kv" or not (is_const(e.a[0]) or e.a[0].op == "g") for e in ents):
            return None
        outs = []
        if isb and all(is_const(e.a[0]) and isinstance(cval(e.a[0]), bool) for e in ents):
            for v, s in self.branch(k, st):
                outs.append((next((e.a[1] for e in ents if cval(e.a[0]) is v), None), s))
            return outs
        todo = [st]
        for e in ents:
            nxt = []
            for s in todo:
                for v, s2 in self.branch(self.mkcmp("is" if e.a[0] is NONE else "eq", k, e.a[0], s), s):
                    if v:
                        outs.append((e.a[1], s2))
                    else:
                        nxt.append(s2)
            todo = nxt
        return outs + [(None, s) for s in todo]

    def subscript(self, b, k, st):
        ents = None
        if b.op == "tuple":
            ents = b.a
        elif b.op == "o" and st.heap[b].kind == "list":
            ents = st.heap[b].ents
        elif b.op == "list":
            ents = b.a
        bad = ("star", "each", "splat", "mut")
        if ents is not None:
            if is_const(k) and isinstance(cval(k), int):
                i = cval(k)
                pre = ents[:i + 1] if i >= 0 else ents[i:]
                if len(pre) >= (i + 1 if i >= 0 else -i) and not any(x.op in bad for x in pre):
                    return ents[i]
                if i >= 0 and len(ents) > 0 and ents[-1].op == "star" \
                        and not any(x.op in bad for x in ents[:-1]) and i >= len(ents) - 1:
                    return self.subscript(ents[-1].a[0], const(i - len(ents) + 1), st)
            if k.op == "slice" and not any(x.op in bad for x in ents) \
                    and all(is_const(x) for x in k.a):
                return tup(*ents[cval(k.a[0]):cval(k.a[1]):cval(k.a[2])])
        if (b.op == "o" and st.heap[b].kind == "dict") or b.op == "dict":
            ds = st.heap[b].ents if b.op == "o" else b.a
            for e in reversed(ds):
                if e.op == "kv":
                    if e.a[0] is k:
                        return e.a[1]
                    if not (is_const(e.a[0]) and is_const(k)):
                        break
                elif e.op == "upd" and len([x for x in ds if x.op == "upd"]) == 1 \
                        and not any(x.op in ("del", "each") for x in ds):
                    # value comes from the copied mapping
                    return self.subscript(e.a[0], k, st)
                else:
                    break
            return mk("sub", self.reify(b, st), k)
        # nested constant slices of an opaque sequence
        if b.op == "sub" and b.a[1].op == "slice":
            lo, hi, step = b.a[1].a
            if is_const(lo) and step is NONE and (cval(lo) is None or cval(lo) >= 0):
                base = cval(lo) or 0
                if is_const(k) and isinstance(cval(k), int) and cval(k) >= 0:
                    return mk("sub", b.a[0], const(base + cval(k)))
                if k.op == "slice" and all(is_const(x) for x in k.a) and k.a[2] is NONE and hi is NONE:
                    l2, h2 = cval(k.a[0]) or 0, cval(k.a[1])
                    if l2 >= 0 and (h2 is None or h2 >= 0):
                        return mk("sub", b.a[0], mk("slice", const(base + l2),
                                                    const(base + h2) if h2 is not None else NONE, NONE))
        if k.op == "slice" and k.a[0] is const(0):
            k = mk("slice", NONE, k.a[1], k.a[2])
        return mk("sub", b, k)

    def e_Slice(self, n, st):
        outs = []
        for vs, s in self.evs([x if x is not None else ast.Constant(value=None)
                               for x in (n.lower, n.upper, n.step)], st):
            outs.append((mk("slice", *vs), s))
        return outs

    def e_Tuple(self, n, st):
        outs = []
        for vs, s in self.ev_elts(n.elts, st):
            outs.append((tup(*vs), s))
        return outs

    def ev_elts(self, elts, st):
        outs = [([], st)]
        for e in elts:
            if isinstance(e, ast.Starred):
                nxt = []
                for vs, s in outs:
                    for v, s2 in self.ev(e.value, s):
                        seq = self.known_seq(v, s2)
                        if seq is not None:
                            nxt.append((vs + seq, s2))
                        else:
                            rv = self.reify(v, s2)
                            if rv.op in ("tuple", "list"):
                                nxt.append((vs + list(rv.a), s2))
                            else:
                                nxt.append((vs + [mk("star", rv)], s2))
                outs = [(rejoin(vs), s) for vs, s in nxt]
            else:
                outs = [(vs + [v], s2) for vs, s in outs for v, s2 in self.ev(e, s)]
        return outs

    def e_List(self, n, st):
        outs = []
        for vs, s in self.ev_elts(n.elts, st):
            vs = [mk("splat", v.a[0]) if v.op == "star" else v for v in vs]
            outs.append((self.alloc(s, "list", vs, node=n), s))
        return outs

    def e_Set(self, n, st):
        return [(self.alloc(s, "set", vs, node=n), s) for vs, s in self.ev_elts(n.elts, st)]

    def e_Dict(self, n, st):
        outs = [([], st)]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for vs, s in outs:
                if k is None:
                    for x, s2 in self.ev(v, s):
                        nxt.append((vs + [mk("upd", x)], s2))
                else:
                    for kk, s2 in self.ev(k, s):
                        for x, s3 in self.ev(v, s2):
                            nxt.append((vs + [mk("kv", kk, x)], s3))
            outs = nxt
        res = []
        for vs, s in outs:
            o = self.alloc(s, "dict", (), node=n)
            for e in vs:
                if e.op == "kv":
                    self.dict_set(s, o, *e.a)
                else:
                    self.dict_update(s, o, e.a[0])
            res.append((o, s))
        return res

    def e_IfExp(self, n, st):
        return [r for b, s in self.cond(n.test, st)
                for r in self.ev(n.body if b else n.orelse, s)]

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        outs, todo = [], [st]
        for i, x in enumerate(n.values):
            last = i == len(n.values) - 1
            nxt = []
            for s in todo:
                for v, s1 in self.ev(x, s):
                    if last:
                        outs.append((v, s1))
                        continue
                    for b, s2 in self.branch(v, s1):
                        if b == isand:
                            nxt.append(s2)
                        else:
                            t = self.truth(v, s2)
                            isb = v.op in ("is", "eq", "lt", "in", "not", "hasattr", "any", "all") \
                                or (v.op == "call" and tm.gname(v.a[0]) in (
                                    "builtins.isinstance", "builtins.callable", "builtins.issubclass", "builtins.bool"))
                            outs.append(((TRUE if b else FALSE) if isb else v, s2))
            todo = nxt
        return outs

    def e_UnaryOp(self, n, st):
        outs = []
        for v, s in self.ev(n.operand, st):
            if isinstance(n.op, ast.Not):
                t = self.truth(v, s)
                outs.append((const(not t) if t is not None
                             else (v.a[0] if v.op == "not" and v.a[0].op in ("is", "eq", "lt", "in", "hasattr")
                                   else mk("not", v)), s))
            elif is_const(v) and isinstance(n.op, ast.USub):
                outs.append((const(-cval(v)), s))
            else:
                outs.append((mk("unop", type(n.op).__name__, v), s))
        return outs

    def e_Compare(self, n, st):
        outs = [((None, TRUE), st)]
        res = []
        for vs, s in self.evs([n.left] + list(n.comparators), st):
            parts = [self.compare(op, vs[i], vs[i + 1], s) for i, op in enumerate(n.ops)]
            res.append((parts[0] if len(parts) == 1 else mk("and", *parts), s))
        return res

    def compare(self, op, a, b, st):
        k = type(op).__name__
        ra, rb = (a, b)
        if k in ("Is", "IsNot"):
            t = self.mkcmp("is", ra, rb, st)
        elif k in ("Eq", "NotEq"):
            ra, rb = self.reify(a, st), self.reify(b, st)
            t = self.mkcmp("eq", ra, rb, st)
        elif k in ("In", "NotIn"):
            t = self.mkin(a, b, st)
        elif k == "Lt":
            t = mk("lt", a, b)
        elif k == "Gt":
            t = mk("lt", b, a)
        elif k == "LtE":
            t = mk("not", mk("lt", b, a))
        elif k == "GtE":
            t = mk("not", mk("lt", a, b))
        else:
            t = mk("cmp", k, a, b)
        if k in ("IsNot", "NotEq", "NotIn"):
            t = t.a[0] if t.op == "not" else mk("not", t) if not is_const(t) else const(not cval(t))
        return t

    def mkcmp(self, op, a, b, st):
        def rank(x):
            return 1 if is_const(x) else 0
        def istype(x):
            return x.op == "call" and tm.gname(x.a[0]) == "builtins.type" and len(tm.cargs(x)) == 1
        if op == "eq" and (istype(a) or istype(b)) and (istype(a) and istype(b) or
                                                        (b if istype(a) else a).op == "g"):
            op = "is"
        if op == "eq" and (a is NONE or b is NONE):
            pass
        if rank(a) > rank(b) or (rank(a) == rank(b) and _order(a) > _order(b)):
            a, b = b, a
        # type(x) is T : keep the type() call first
        return mk(op, a, b)

    def mkin(self, a, b, st):
        seq = None
        if b.op in ("tuple", "set", "list"):
            seq = b.a
        elif b.op == "o" and st.heap[b].kind in ("list", "set"):
            seq = st.heap[b].ents
        elif b.op == "o" and st.heap[b].kind == "dict":
            ents = st.heap[b].ents
            if all(x.op == "kv" for x in ents):
                seq = [x.a[0] for x in ents]
        if seq is not None and len(seq) <= 12 and not any(
                x.op in ("each", "splat", "star", "mut") for x in seq):
            if not seq:
                return FALSE
            parts = [self.mkcmp("eq", a, x, st) for x in seq]
            parts = [(TRUE if cval(p.a[0]) == cval(p.a[1]) else FALSE)
                     if is_const(p.a[0]) and is_const(p.a[1]) else p for p in parts]
            return parts[0] if len(parts) == 1 else mk("or", *parts)
        b = self.reify(b, st)
        if b.op == "call" and b.a[0].op == "attr" and b.a[0].a[1] == "keys":
            b = b.a[0].a[0]
        if b.op == "call" and tm.gname(b.a[0]) in ("builtins.list", "builtins.tuple", "builtins.set") \
                and len(tm.cargs(b)) == 1:
            b = tm.cargs(b)[0]
            return self.mkin(a, b, st)
        return mk("in", a, b)

    def e_BinOp(self, n, st):
        outs = []
        for vs, s in self.evs([n.left, n.right], st):
            outs.append((self.binop(n.op, vs[0], vs[1], s, n), s))
        return outs

    def binop(self, op, a, b, st, node=None):
        k = type(op).__name__
        if k == "Mod" and a.op == "c" and isinstance(cval(a), str):
            return fmt_percent(cval(a), b)
        if k == "Mod" and a.op == "fmt":
            return mk("binop", k, a, self.reify(b, st))
        if is_const(a) and is_const(b):
            try:
                x, y = cval(a), cval(b)
                if k == "Add":
                    return const(x + y)
                if k == "Sub":
                    return const(x - y)
                if k == "BitOr":
                    return const(x | y)
                if k == "Mult" and isinstance(x, int) and isinstance(y, int):
                    return const(x * y)
            except TypeError:
                pass
        if k == "Add":
            if a.op == "tuple" and b.op == "tuple":
                return tup(*(a.a + b.a))
            if a.op == "tuple" or b.op == "tuple":
                xa = a.a if a.op == "tuple" else (mk("star", a),)
                xb = b.a if b.op == "tuple" else (mk("star", b),)
                return tup(*(xa + xb))
            if a.op == "o" and b.op == "o" and st.heap[a].kind == "list":
                return self.alloc(st, "list", st.heap[a].ents + st.heap[b].ents, node=node)
            if isstr(a) or isstr(b):
                return fmt_join([a, b])
            return mk("add", a, b)
        if k == "BitOr":
            xa = a.a if a.op == "bitor" else (a,)
            xb = b.a if b.op == "bitor" else (b,)
            return mk("bitor", *(self.reify(x, st) for x in xa + xb))
        if k == "Mult" and is_const(a):
            a, b = b, a
        return mk("binop", k, self.reify(a, st), self.reify(b, st))

    def e_JoinedStr(self, n, st):
        outs = [([], st)]
        for v in n.values:
            nxt = []
            for vs, s in outs:
                if isinstance(v, ast.Constant):
                    nxt.append((vs + [v.value], s))
                else:
                    for x, s2 in self.ev(v.value, s):
                        conv = {-1: "", 115: "", 114: "r", 97: "a"}[v.conversion]
                        nxt.append((vs + [mk("fv", conv, x)], s2))
            outs = nxt
        return [(fmt_norm(vs), s) for vs, s in outs]

    def e_FormattedValue(self, n, st):
        return self.e_JoinedStr(ast.JoinedStr(values=[n]), st)

    def e_Lambda(self, n, st):
        return self.closure(n, st)

    def e_NamedExpr(self, n, st):
        outs = []
        for v, s in self.ev(n.value, st):
            outs.extend((v, s2) for s2 in self.assign(n.target, v, s, n))
        return outs

    def e_Starred(self, n, st):
        return [(mk("star", v), s) for v, s in self.ev(n.value, st)]

    def e_Yield(self, n, st):
        outs = []
        for ctl, s in self.do_yield(n, st, None):
            if ctl is None:
                outs.append((mk("yielded"), s))
            else:
                self.collectors[-1].append((ctl[1], s, False))
        return outs

    def e_Await(self, n, st):
        return self.ev(n.value, st)

    # ---- comprehensions: evaluated as loops building a container
    def comp(self, n, st, kind, elt):
        self.busy += 1
        try:
            return self.comp_(n, st, kind, elt)
        finally:
            self.busy -= 1

    def comp_(self, n, st, kind, elt):
        name = "$comp%d" % id(n)
        saved = {}
        for gen in n.generators:
            for x in ast.walk(gen.target):
                if isinstance(x, ast.Name):
                    saved[x.id] = st.frames[st.cur].get(x.id)
        o = self.alloc(st, kind, (), node=n)
        ok = []
        for _, s in self.comp_gen(n.generators, 0, st, o, elt):
            fr = s.frames[s.cur]
            for k, v in saved.items():
                if v is None:
                    fr.pop(k, None)
                else:
                    fr[k] = v
            ok.append((None, s))
        return [(o, s) for _, s in self.merge(ok)]

    def comp_gen(self, gens, i, st, o, elt):
        if i == len(gens):
            outs = []
            for e, s in elt(st):
                if s.heap[o].kind == "dict":
                    self.dict_set(s, o, *e)
                else:
                    h = s.heap[o]
                    self.hupd(s, o, h.ents + (self.wrap(s, o, e),))
                outs.append((None, s))
            return outs
        gen = gens[i]
        outs = []
        for it, s in self.ev(gen.iter, st):
            seq = self.known_seq(it, s)
            if seq is not None and len(seq) <= 32:
                cur = [s]
                for x in seq:
                    nxt = []
                    for s1 in cur:
                        for s2 in self.assign(gen.target, x, s1, gen.target):
                            nxt.extend(self.comp_ifs(gens, i, s2, o, elt))
                    cur = [c for _, c in self.merge(nxt)]
                outs.extend((None, c) for c in cur)
            else:
                it = self.reify(it, s)
                key = mk("loop", self.strip_iter(it))
                s.loops = s.loops + (key,)
                if self.pol.keepmarks:
                    self.emit(s, "loop+", key, gen.target)
                for s2 in self.assign(gen.target, self.elem_of(it, s), s, gen.target):
                    for _, s3 in self.comp_ifs(gens, i, s2, o, elt):
                        if self.pol.keepmarks:
                            self.emit(s3, "loop-", key, gen.target)
                        s3.loops = s3.loops[:-1]
                        outs.append((None, s3))
        return outs

    def comp_ifs(self, gens, i, st, o, elt):
        todo, outs = [st], []
        for c in gens[i].ifs:
            nxt = []
            for s in todo:
                for b, s2 in self.cond(c, s):
                    if b:
                        nxt.append(s2)
                    else:
                        outs.append((None, s2))
            todo = nxt
        for s in todo:
            outs.extend(self.comp_gen(gens, i + 1, s, o, elt))
        return outs

    def e_ListComp(self, n, st):
        return self.comp(n, st, "list", lambda s: self.ev(n.elt, s))

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, st):
        return self.comp(n, st, "set", lambda s: self.ev(n.elt, s))

    def e_DictComp(self, n, st):
        return self.comp(n, st, "dict", lambda s: [
            ((k, v), s3) for k, s2 in self.ev(n.key, s) for v, s3 in self.ev(n.value, s2)])

    # ------------------------------------------------------------------- calls
    def ev_args(self, n, st):
        """list of (args, kws, state); args may contain star terms, kws: [(name|'**', term)]"""
        outs = []
        for vs, s in self.ev_elts(n.args, st):
            o2 = [([], s)]
            for k in n.keywords:
                nxt = []
                for ks, s1 in o2:
                    for v, s2 in self.ev(k.value, s1):
                        if k.arg is None:
                            ents = None
                            if v.op == "o" and s2.heap[v].kind == "dict":
                                ents = s2.heap[v].ents
                            elif v.op == "dict":
                                ents = v.a
                            if ents is not None:
                                add = []
                                for e in ents:
                                    if e.op == "kv" and is_const(e.a[0]):
                                        add.append((cval(e.a[0]), e.a[1]))
                                    elif e.op == "upd":
                                        add.append(("**", e.a[0]))
                                    else:
                                        add.append(("**", mk("dict", self.reify(e, s2))))
                                nxt.append((ks + add, s2))
                            else:
                                nxt.append((ks + [("**", v)], s2))
                        else:
                            nxt.append((ks + [(k.arg, v)], s2))
                o2 = nxt
            outs.extend((vs, ks, s1) for ks, s1 in o2)
        return outs

    def e_Call(self, n, st):
        # any()/all() over a comprehension: keep as an atom, or expand if known
        if isinstance(n.func, ast.Name) and n.func.id in ("any", "all") and len(n.args) == 1 \
                and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)) and not n.keywords:
            r = self.anyall(n.func.id, n.args[0], st)
            if r is not None:
                return r
        outs = []
        for f, s in self.ev(n.func, st):
            for args, kws, s2 in self.ev_args(n, s):
                outs.extend(self.docall(f, args, kws, s2, n))
        return outs

    def anyall(self, which, ge, st):
        if len(ge.generators) != 1:
            return None
        gen = ge.generators[0]
        outs = []
        for it, s in self.ev(gen.iter, st):
            seq = self.known_seq(it, s)
            if seq is None or len(seq) > 16 or gen.ifs:
                # atom: any/all(elem-condition)
                fr = s.frames[s.cur]
                saved = dict(fr)
                it = self.reify(it, s)
                s1 = s.copy()
                sts = self.assign(gen.target, self.elem_of(it, s1), s1, ge)
                vals = []
                for s2 in sts:
                    conds = [v for c in gen.ifs for v, _ in self.ev(c, s2.copy())]
                    for v, _ in self.ev(ge.elt, s2.copy()):
                        vals.append(mk("and", *conds, v) if conds else v)
                e = vals[0] if len(vals) == 1 else mk("phi", *sorted(vals, key=_order))
                outs.append((mk(which, mk("loop", self.strip_iter(it)), self.reify(e, s)), s))
            else:
                fr = s.frames[s.cur]
                names = [x.id for x in ast.walk(gen.target) if isinstance(x, ast.Name)]
                saved = {k: fr.get(k) for k in names}
                todo = [s]
                for x in seq:
                    nxt = []
                    for s1 in todo:
                        for s2 in self.assign(gen.target, x, s1, ge):
                            for b, s3 in self.cond(ge.elt, s2):
                                if b == (which == "any"):
                                    outs.append((const(b), s3))
                                else:
                                    nxt.append(s3)
                    todo = nxt
                outs.extend((const(which == "all"), s1) for s1 in todo)
                for _, s1 in outs:
                    f1 = s1.frames[s1.cur]
                    for k, v in saved.items():
                        if v is None:
                            f1.pop(k, None)
                        else:
                            f1[k] = v
        return outs

    def callable_fi(self, f, st):
        """(FuncInfo, closure frame, defaults) of a callable term, or (None,)*3"""
        if f.op == "fn":
            fi, fid, dfl = self.fnreg[f.a[0]]
            return fi, f.a[1], dfl
        if f.op == "g" and f.a[0] in self.prog.funcs:
            return self.prog.func(f.a[0]), None, None
        if f.op == "bound":
            return self.prog.func(f.a[1]), None, None
        return None, None, None

    def find_method(self, b, name, st):
        cq = None
        if b.op == "o" and b in st.heap and st.heap[b].kind == "inst":
            cq = st.heap[b].cls
        elif b in self.pol.types:
            cq = self.pol.types[b]
        elif b.op == "g":
            cq = self.prog.global_class(b)
        if cq is None:
            return None
        return self.prog.method(cq, name)

    def docall(self, f, args, kws, st, node):
        # unwrap partials
        if f.op == "partial":
            pa, pk = list(f.a[1].a), [(k.a[0], k.a[1]) for k in f.a[2].a]
            return self.docall(f.a[0], pa + list(args), pk + list(kws), st, node)
        if f.op == "attr":
            r = self.method_call(f.a[0], f.a[1], args, kws, st, node)
            if r is not None:
                return r
        if f.op == "g":
            r = self.builtin_call(f.a[0], args, kws, st, node)
            if r is not None:
                return r
        fi, fid, dfl = self.callable_fi(f, st)
        if f.op == "bound":
            me = None if fi is None else receiver(fi, f.a[0])
            args = ([f.a[0]] if me is None else me) + list(args)
        elif f.op == "g" and fi is not None and [_deco_name(d) for d in fi.decos] == ["classmethod"]:
            args = [g(f.a[0].rpartition(".")[0])] + list(args)
        if fi is not None:
            if f.op == "fn" or self.pol.inline(fi.qual):
                if fi.node not in self.stack and len(self.stack) <= self.pol.depth \
                        and not (fi.isgen and not self.linear):
                    r = self.call_fi(fi, fid, args, kws, st, node, dfl)
                    if r is not None:
                        return r
        if f.op == "g" and f.a[0] in self.prog.classes and f.a[0] in self.pol.classes:
            return self.construct(f.a[0], args, kws, st, node)
        return self.opaque(f, args, kws, st, node, fi)

    def construct(self, cq, args, kws, st, node):
        o = self.alloc(st, "inst", (), cls=cq, node=node)
        init = self.prog.method(cq, "__init__")
        self.emit(st, "new", mk("inst", cq), node)
        if init is None:
            return [(o, st)]
        r = self.call_fi(init, None, [o] + list(args), kws, st, node)
        if r is None:
            return self.opaque(g(cq), args, kws, st, node, None)
        return [(o, s) for _, s in r]

    def opaque(self, f, args, kws, st, node, fi=None):
        rargs = [self.reify(x, st) for x in args]
        rkws = [(k, self.reify(v, st)) for k, v in kws]
        if fi is not None and not any(a.op == "star" for a in rargs):
            rargs, rkws = canon_args(fi, rargs, rkws, f.op == "bound")
        rkws = sorted(rkws, key=lambda p: (p[0] == "**", p[0]))
        rf = self.reify(f, st)
        if rf.op == "g" and rf.a[0].endswith((".get", ".pop", ".__getitem__")) and rargs:
            b, _, m = rf.a[0].rpartition(".")
            v = st.items.get((g(b), args[0]))
            if v is not None and m != "pop":
                return [(v, st)]            # what was stored there before
            if m == "pop":
                st.items.pop((g(b), args[0]), None)
        n = 0
        impure = (rf.op == "attr" and rf.a[1] in IMPURE_METHODS) or \
            (rf.op == "g" and rf.a[0] in IMPURE_FUNCS)
        t = call(rf, rargs, rkws, 0)
        if impure:
            k = ("call", t)
            n = st.cnt.get(k, 0)
            st.cnt[k] = n + 1
            if n:
                t = call(rf, rargs, rkws, n)
        nm = rf.a[0] if rf.op == "g" else None
        pure = (nm in PURE_BUILTINS) or (rf.op == "attr" and rf.a[1] in PURE_METHODS)
        if nm not in NORAISE and not (nm or "").startswith("os.path.") and not (
                self.pol.raises == "all" and (rf.op == "attr" and rf.a[1] == "close" and not rargs
                                              or (nm or "").startswith("sys.modules."))):
            if self.pol.excev and (len(self.collectors) > 1 or self.pol.raises == "all"):
                s1 = st.copy()
                self.emit(s1, "raises", t, node)
                self.may_raise(s1, EXC_ANY)
            else:
                self.may_raise(st, EXC_ANY)
        if not pure:
            self.emit(st, "call", t, node)
            if rf.op == "attr" and rf.a[1] in ("__enter__",):
                pass
        return [(t, st)]

    def call_fi(self, fi, fid, args, kws, st, node, dfl=None, force=False):
        caller = st.cur
        frame = self.bind(fi, fid, args, kws, st, dfl)
        if frame is None:
            st.cur = caller
            return None
        self.stack.append(fi.node)
        st.cur = frame
        self.busy += 1          # the caller is in the middle of an expression
        try:
            outs = self.body(fi, st)
        finally:
            self.busy -= 1
            self.stack.pop()
        res = []
        for ctl, s in outs:
            s.cur = caller
            fr = s.frames.get(frame)
            if fr is not None and "$cap" not in fr:
                del s.frames[frame]
            if ctl is not None and ctl[0] == "raise":
                self.collectors[-1].append((ctl[1], s, False))
            else:
                res.append((NONE if ctl is None else ctl[1], s))
        # fix the frame of states collected from inside the callee
        for col in self.collectors:
            for i, (exc, s, imp) in enumerate(col):
                if s.cur == frame:
                    s.cur = caller
        if len(res) > 1:
            groups = self.merge([(("v", v), s) for v, s in res])
            res = [(c[1], s) for c, s in groups]
        return res

    def bind(self, fi, fid, args, kws, st, dfl=None):
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        vals = {}
        args = list(args)
        rest = []
        for i, v in enumerate(args):
            if v.op == "star":
                tail = args[i:]
                if len(vals) < len(pos) and not (a.vararg and len(vals) >= len(pos)):
                    if len(tail) == 1 and i >= len(pos):
                        rest = tail
                        break
                    need = [x for x in pos[i:] if x not in dict(kws)]
                    if len(tail) == 1 and not a.vararg and not a.defaults and need == pos[i:i + len(need)]:
                        for j, x in enumerate(need):    # the call fails unless there are as many
                            vals[x] = self.subscript(v.a[0], const(j), st)
                        break
                    return None
                rest = tail
                break
            if i < len(pos):
                vals[pos[i]] = v
            else:
                rest.append(v)
        if rest and not a.vararg:
            return None
        extra = []
        for k, v in kws:
            if k == "**":
                extra.append(mk("upd", v))
            elif k in pos or k in kwonly:
                vals[k] = v
            else:
                extra.append(mk("kv", const(k), v))
        if extra and not a.kwarg:
            return None
        caller = st.cur
        frame = self.push_frame(st, fi, fid)
        fr = st.frames[frame]
        fr.update(vals)
        nd = len(a.defaults)
        dnodes = dict(zip(pos[len(pos) - nd:], a.defaults))
        dvals = {}
        if dfl:
            names = pos[len(pos) - nd:] + [k.arg for k, d in zip(a.kwonlyargs, a.kw_defaults) if d]
            dvals = dict(zip(names, dfl))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                dnodes[x.arg] = d
        for p in pos + kwonly:
            if p not in fr:
                if p in dvals:
                    fr[p] = dvals[p]
                elif p in dnodes:
                    fr[p] = self.default_value(fi, dnodes[p], st)
                else:
                    del st.frames[frame]
                    st.cur = caller
                    return None
        if a.vararg:
            if len(rest) == 1 and rest[0].op == "star":
                fr[a.vararg.arg] = rest[0].a[0]
            else:
                fr[a.vararg.arg] = tup(*rest)
        if a.kwarg:
            if len(extra) == 1 and extra[0].op == "upd" and extra[0].a[0].op in ("dict",):
                o = self.alloc(st, "dict", extra[0].a[0].a, node=fi.node)
            else:
                o = self.alloc(st, "dict", tuple(extra), node=fi.node)
            fr[a.kwarg.arg] = o
        return frame

    def default_value(self, fi, node, st):
        if isinstance(node, ast.Constant):
            return const(node.value)
        r = self.prog.alias(fi.module, node, ())
        if r is not None:
            return r
        if isinstance(node, (ast.Tuple, ast.List)) and not node.elts:
            return tup()
        return mk("default", fi.qual, ast.dump(node))

    # ---- builtin models
    def builtin_call(self, name, args, kws, st, node):
        nm = name[9:] if name.startswith("builtins.") else None
        if any(a.op == "star" for a in args):
            return None
        n = len(args)
        if nm is not None and "." in nm:
            # unbound builtin method: dict.pop(d, k) == d.pop(k)
            base, _, meth = nm.partition(".")
            if base in ("dict", "list", "set", "str") and n >= 1 and meth != "fromkeys":
                return self.docall(self.getattr(args[0], meth, st, raising=False), args[1:], kws,
                                   st, node)
            return None
        if name == "functools.partial" and n >= 1:
            return [(mk("partial", args[0], mk("args", *args[1:]),
                        mk("kw", *[mk("kwarg", k, v) for k, v in kws])), st)]
        if name in ("collections.OrderedDict", "collections.defaultdict") and not (n or kws):
            return [(self.alloc(st, "dict", node=node), st)]
        if nm is None:
            return None
        if kws and nm not in ("dict",):
            return None
        if nm == "getattr" and n in (2, 3):
            if is_const(args[1]) and isinstance(cval(args[1]), str):
                if n == 2:
                    return [(self.getattr(args[0], cval(args[1]), st), st)]
                v = st.attrs.get((args[0], cval(args[1])))
                if v is not None:
                    return [(v, st)]
                h = mk("hasattr", args[0], args[1])
                if st.facts.get(h) is True:
                    return [(self.getattr(args[0], cval(args[1]), st), st)]
                if st.facts.get(h) is False:
                    return [(args[2], st)]
                return [(mk("getattr", args[0], args[1], self.reify(args[2], st)), st)]
            self.may_raise(st, mk("exc", "AttributeError")) if n == 2 else None
            return [(mk("getattr", *[self.reify(a, st) for a in args]), st)]
        if nm == "hasattr" and n == 2:
            if is_const(args[1]) and (args[0], cval(args[1])) in st.attrs:
                return [(TRUE, st)]
            return [(mk("hasattr", self.reify(args[0], st), args[1]), st)]
        if nm == "setattr" and n == 3:
            self.may_raise_op(st, "setattr", self.reify(args[0], st), tup(args[1], self.reify(args[2], st)), node)
            if is_const(args[1]):
                self.store_attr(st, args[0], cval(args[1]), args[2], node)
            else:
                self.emit(st, "setattr", self.reify(args[0], st), node,
                          tup(args[1], self.reify(args[2], st)))
                st.attrs[(args[0], args[1])] = args[2]
            return [(NONE, st)]
        if nm == "delattr" and n == 2:
            self.emit(st, "delattr", self.reify(args[0], st), node, args[1])
            return [(NONE, st)]
        if nm == "vars" and n == 1:
            return [(self.getattr(args[0], "__dict__", st), st)]
        if nm in ("list", "set", "dict", "tuple"):
            if nm == "tuple" and n == 1:
                a = self.reify(args[0], st)
                if a.op in ("tuple", "list"):
                    return [(tup(*[mk("star", x.a[0]) if x.op == "splat" else x for x in a.a]), st)]
                return None
            if nm == "tuple" and n == 0:
                return [(tup(), st)]
            if nm == "dict":
                o = self.alloc(st, "dict", node=node)
                if n == 1:
                    a = args[0]
                    ents = None
                    if a.op == "o" and st.heap[a].kind == "list":
                        ents = st.heap[a].ents
                    if ents is not None:
                        self.hupd(st, o, [_kvise(e) for e in ents])
                    else:
                        self.dict_update(st, o, a)
                for k, v in kws:
                    if k == "**":
                        self.dict_update(st, o, v)
                    else:
                        self.dict_set(st, o, const(k), v)
                return [(o, st)]
            if n == 0:
                return [(self.alloc(st, nm, node=node), st)]
            if n == 1:
                o = self.alloc(st, nm, node=node)
                self.extend(st, o, args[0])
                return [(o, st)]
        if nm == "bytes" and n == 2 and is_const(args[0]):
            return [(const(cval(args[0]).encode()), st)]
        if nm == "bytes" and n == 2 and args[0].op == "fmt":
            return [(mk("bfmt", *args[0].a), st)]
        if nm == "len" and n == 1:
            seq = self.known_seq(args[0], st)
            if seq is not None:
                return [(const(len(seq)), st)]
        if nm == "isinstance" and n == 2 and args[0].op in ("c",) and args[1].op == "g":
            ty = getattr(_bi, args[1].a[0].replace("builtins.", ""), None)
            if isinstance(ty, type):
                return [(const(isinstance(cval(args[0]), ty)), st)]
        if nm == "callable" and n == 1 and args[0].op in ("fn", "partial"):
            return [(TRUE, st)]
        if nm == "bool" and n == 1:
            t = self.truth(args[0], st)
            if t is not None:
                return [(const(t), st)]
            if args[0].op in ("eq", "is", "in", "not", "lt", "le", "any", "all") or args[0].op == "call" and \
                    tm.gname(args[0].a[0]) in ("builtins.any", "builtins.all", "builtins.isinstance", "builtins.callable",
                                               "builtins.issubclass", "builtins.hasattr"):
                return [(args[0], st)]
        if nm == "next" and n == 2:
            self.may_raise(st, EXC_ANY)
            return [(mk("next", self.strip_iter(self.reify(args[0], st)), self.reify(args[1], st)), st)]
        if nm == "next" and n == 1:
            self.may_raise(st, mk("exc", "StopIteration"))
            return [(mk("next", self.strip_iter(self.reify(args[0], st))), st)]
        if nm == "type" and n == 1 and args[0].op == "o" and st.heap[args[0]].kind != "inst":
            return [(_G[st.heap[args[0]].kind], st)]
        if nm == "str" and n == 1 and isstr(args[0]):
            return [(args[0], st)]
        if nm == "str" and n == 1 and not is_const(args[0]):
            self.may_raise(st)
        if nm == "str" and n == 1:
            return [(fmt_norm([mk("fv", "", args[0])]), st)]
        if nm == "repr" and n == 1 and not is_const(args[0]):
            self.may_raise(st)
        if nm == "repr" and n == 1:
            return None
        return None

    # ---- methods on tracked containers / normalised opaque methods
    def method_call(self, b, name, args, kws, st, node):
        if b.op == "o" and b in st.heap:
            h = st.heap[b]
            if h.kind == "list":
                return self.list_method(b, h, name, args, kws, st, node)
            if h.kind == "dict":
                return self.dict_method(b, h, name, args, kws, st, node)
            if h.kind == "set":
                return self.set_method(b, h, name, args, kws, st, node)
            return None
        m = None
        if self.me and b is self.me[0] and b not in self.pol.types:
            m = self.prog.method(self.me[1], name)
            me = None if m is None else receiver(m, b)
            if me is not None and m.qual not in self.pol.vocab and m.node not in self.stack and not m.isgen:
                return self.call_fi(m, None, me + list(args), kws, st, node)
        if b in self.pol.types or b.op == "g":
            m = self.find_method(b, name, st)
            me = None if m is None else receiver(m, b)
            if me is not None and self.pol.inline(m.qual) and m.node not in self.stack:
                return self.call_fi(m, None, me + list(args), kws, st, node)
        if b.op == "c" and isinstance(cval(b), str):
            return self.str_method(b, name, args, kws, st, node)
        if b.op == "fmt" and name == "encode":
            return [(mk("bfmt", *b.a), st)]
        if name == "__repr__" and not args and not kws:
            return [(call(_G["repr"], (b,)), st)]
        if name == "__getattribute__" and len(args) == 1 and is_const(args[0]):
            return [(self.getattr(b, cval(args[0]), st), st)]
        if name == "copy" and not args and b.op != "g":
            self.may_raise(st, EXC_ANY)
            o = self.alloc(st, "dict", (mk("upd", b),), node=node)
            return [(o, st)]
        if name == "get" and 1 <= len(args) <= 2 and not kws:
            v = st.items.get((b, args[0]))
            if v is not None:
                return [(v, st)]
            return [(mk("get", b, args[0], args[1] if len(args) > 1 else NONE), st)]
        if name in ("update", "pop", "setdefault", "clear", "popitem", "__setitem__", "__delitem__"):
            # mutation of an opaque mapping
            ra = [self.reify(a, st) for a in args]
            if not (name == "pop" and len(ra) == 2):
                self.may_raise_op(st, "mut", b, tup(const(name), *ra), node,
                                  mk("exc", "KeyError") if name in ("pop", "__delitem__") and len(ra) == 1
                                  else EXC_ANY)
            if name == "__setitem__" and len(ra) == 2:
                self.store_item(st, b, args[0], args[1], node)
                return [(NONE, st)]
            self.emit(st, "mut", b, node, tup(const(name), *(ra + [mk("kwarg", k, self.reify(v, st))
                                                                    for k, v in kws])))
            if name == "pop":
                return [(mk("popped", b, *ra), st)]
            if name == "setdefault":
                if len(ra) == 2:
                    return [(mk("get", b, ra[0], ra[1]), st)]
                return [(mk("get", b, ra[0], NONE), st)]
            return [(NONE, st)]
        return None

    def str_method(self, b, name, args, kws, st, node):
        s = cval(b)
        if name == "format":
            r = fmt_format(s, args, kws)
            return [(r, st)] if r is not None else None
        if name == "encode":
            try:
                return [(const(s.encode()), st)]
            except Exception:
                return None
        if name == "join" and len(args) == 1:
            seq = self.known_seq(args[0], st)
            if seq is not None:
                parts = []
                for i, x in enumerate(seq):
                    if i and s:
                        parts.append(const(s))
                    parts.append(x)
                return [(fmt_join(parts), st)]
            return [(mk("join", b, self.reify(args[0], st)), st)]
        if name in ("split", "startswith", "endswith", "strip", "lower", "partition", "rpartition",
                    "replace", "upper", "rsplit", "lstrip", "rstrip", "isidentifier", "removeprefix",
                    "removesuffix", "count", "find", "isdigit", "casefold") and all(is_const(a) for a in args) and not kws:
            try:
                r = getattr(s, name)(*[cval(a) for a in args])
            except Exception:
                return None
            if isinstance(r, list):
                return [(self.alloc(st, "list", [const(x) for x in r], node=node), st)]
            return [(const(r), st)]
        return None

    def extend(self, st, o, it):
        h = st.heap[o]
        if it.op == "o" and st.heap[it].kind in ("list", "set"):
            ents = st.heap[it].ents
        else:
            seq = self.known_seq(it, st)
            if seq is not None:
                ents = tuple(seq)
            elif it.op in ("tuple", "list"):
                ents = tuple(mk("splat", x.a[0]) if x.op == "star" else x for x in it.a)
            else:
                ents = (mk("splat", self.strip_iter(self.reify(it, st))),)
        self.hupd(st, o, h.ents + tuple(self.wrap(st, o, e) for e in ents))

    def list_method(self, b, h, name, args, kws, st, node):
        if name == "append" and len(args) == 1:
            self.hupd(st, b, h.ents + (self.wrap(st, b, args[0]),))
            return [(NONE, st)]
        if name == "extend" and len(args) == 1:
            self.extend(st, b, args[0])
            return [(NONE, st)]
        if name == "copy":
            return [(self.alloc(st, "list", h.ents, node=node), st)]
        if name == "pop" and h.ents and not any(
                e.op in ("each", "splat", "mut") for e in h.ents) and not st.loops[h.depth:]:
            i = cval(args[0]) if args and is_const(args[0]) else -1
            if not args or is_const(args[0]):
                e = list(h.ents)
                v = e.pop(i)
                self.hupd(st, b, e)
                return [(v, st)]
        if name in ("remove", "pop", "insert", "sort", "reverse", "clear"):
            self.may_raise(st, EXC_ANY)
            ra = [self.reify(a, st) for a in args] + [mk("kwarg", k, self.reify(v, st)) for k, v in kws or () if k]
            if name == "clear":
                self.hupd(st, b, ())
                return [(NONE, st)]
            self.hupd(st, b, h.ents + (mk("mut", name, *ra),))
            return [(mk("popped", b, *ra) if name == "pop" else NONE, st)]
        return None

    def set_method(self, b, h, name, args, kws, st, node):
        if name == "add":
            self.hupd(st, b, h.ents + (self.wrap(st, b, args[0]),))
            return [(NONE, st)]
        if name == "update":
            for a in args:
                self.extend(st, b, a)
            return [(NONE, st)]
        if name == "copy":
            return [(self.alloc(st, "set", h.ents, node=node), st)]
        if name in ("discard", "remove", "pop", "clear"):
            self.hupd(st, b, h.ents + (mk("mut", name, *[self.reify(a, st) for a in args]),))
            return [(NONE, st)]
        return None

    def dict_set(self, st, o, k, v):
        h = st.heap[o]
        if len(st.loops) > h.depth:
            self.hupd(st, o, h.ents + (self.wrap(st, o, mk("kv", k, v)),))
            return
        ents = list(h.ents)
        if not any(e.op in ("each", "mut") for e in ents):
            ents = [e for e in ents if not (e.op in ("kv", "del") and e.a[0] is k)]
        ents.append(mk("kv", k, v))
        self.hupd(st, o, ents)

    def dict_del(self, st, o, k):
        h = st.heap[o]
        if len(st.loops) > h.depth:
            self.hupd(st, o, h.ents + (self.wrap(st, o, mk("del", k)),))
            return
        ents = [e for e in h.ents if not (e.op == "kv" and e.a[0] is k)]
        if any(e.op != "kv" or not is_const(e.a[0]) for e in ents):
            ents = [e for e in ents if not (e.op == "del" and e.a[0] is k)]
            ents.append(mk("del", k))
        self.hupd(st, o, ents)

    def dict_update(self, st, o, v):
        if v.op == "o" and v in st.heap and st.heap[v].kind == "dict":
            ents = st.heap[v].ents
        elif v.op == "dict":
            ents = v.a
        else:
            seq = self.known_seq(v, st)
            if seq is not None and all(x.op == "tuple" and len(x.a) == 2 for x in seq):
                ents = [mk("kv", *x.a) for x in seq]
            else:
                h = st.heap[o]
                rv = self.reify(v, st)
                # dict(x.items()) == dict(x)
                if rv.op == "call" and rv.a[0].op == "attr" and rv.a[0].a[1] == "items" \
                        and not tm.cargs(rv):
                    rv = rv.a[0].a[0]
                self.hupd(st, o, h.ents + (self.wrap(st, o, mk("upd", rv)),))
                return
        for e in ents:
            if e.op == "kv":
                self.dict_set(st, o, *e.a)
            else:
                h = st.heap[o]
                self.hupd(st, o, h.ents + (self.wrap(st, o, e),))

    def dict_method(self, b, h, name, args, kws, st, node):
        if name == "update":
            for a in args:
                self.dict_update(st, b, a)
            for k, v in kws:
                if k == "**":
                    self.dict_update(st, b, v)
                else:
                    self.dict_set(st, b, const(k), v)
            return [(NONE, st)]
        if name == "copy":
            return [(self.alloc(st, "dict", h.ents, node=node), st)]
        if name in ("pop", "get", "setdefault") and args:
            k = args[0]
            if name == "get" and not st.loops[h.depth:]:
                forks = self.pick(b, k, st)
                if forks is not None:
                    return [((args[1] if len(args) > 1 else NONE) if v is None else v, s) for v, s in forks]
            known = [e for e in h.ents if e.op == "kv" and e.a[0] is k]
            allk = all(e.op == "kv" and is_const(e.a[0]) for e in h.ents) and is_const(k)
            default = args[1] if len(args) > 1 else NONE
            if known and (allk or h.ents[-1] is known[-1]):
                v = known[-1].a[1]
            elif allk:
                v = default
                if name == "pop" and len(args) == 1:
                    self.may_raise(st, mk("exc", "KeyError"), implicit=False)
                    return []
            else:
                if name == "pop" and len(args) == 1:
                    self.may_raise(st, mk("exc", "KeyError"))
                ups = [e for e in h.ents if e.op == "upd"]
                if len(ups) == 1 and not any(e.op in ("del", "each", "mut") for e in h.ents):
                    v = mk("get", ups[0].a[0], k, default)
                else:
                    v = mk("get", self.reify(b, st), k, default)
            if name == "pop":
                self.dict_del(st, b, k)
            if name == "setdefault" and not known:
                self.hupd(st, b, st.heap[b].ents + (self.wrap(st, b, mk("setdefault", k, default)),))
            return [(v, st)]
        if name == "clear":
            self.hupd(st, b, ())
            return [(NONE, st)]
        if name in ("__setitem__",):
            self.dict_set(st, b, *args)
            return [(NONE, st)]
        return None


# ------------------------------------------------------------------ helpers
def rejoin(vs):
    """x[0], x[1], *x[2:]  ->  *x"""
    t = vs[-1] if vs else None
    if t is None or t.op != "star" or t.a[0].op != "sub":
        return vs
    x, k = t.a[0].a
    if k.op != "slice" or k.a[1] is not NONE or k.a[2] is not NONE or not is_const(k.a[0]):
        return vs
    n = cval(k.a[0])
    if not isinstance(n, int) or n < 1 or len(vs) <= n:
        return vs
    if all(v.op == "sub" and v.a[0] is x and v.a[1] is const(i) for i, v in enumerate(vs[-n - 1:-1])):
        return vs[:-n - 1] + [mk("star", x)]
    return vs


def settle(p):
    """getattr(x, name, default) on a path that knows whether x has the attribute"""
    st = p.st
    known = {f.a: v for f, v in st.facts.items() if f.op == "hasattr" and is_const(f.a[1])}
    if not known:
        return p

    def f(t):
        if t.op == "getattr" and len(t.a) == 3:
            v = known.get((t.a[0], t.a[1]))
            if v is not None:
                return attr(t.a[0], cval(t.a[1])) if v else t.a[2]
        return t
    if not any(t.op == "getattr" and known.get(t.a[:2]) is not None and len(t.a) == 3
               for x in [p.val] + list(st.facts) + [e.t for e in st.events] + [e.x for e in st.events]
               if isinstance(x, T) for t in tm.subterms(x)):
        return p
    st = st.copy()
    cache = {}

    def sub(x):
        if not isinstance(x, T):
            return x
        r = cache.get(x)
        if r is None:
            r = cache[x] = tm.subst(x, f)
        return r
    fs = {}
    for k, v in st.facts.items():
        k = sub(k)
        if not is_const(k) and not (k.op in ("is", "eq") and is_const(k.a[0]) and is_const(k.a[1])):
            fs[k] = v
    st.facts = fs
    st.events = tuple(Ev(e.kind, sub(e.t), sub(e.x), e.line, e.mod, e.facts, e.loops, e.fn) for e in st.events)
    return Path(p.ctl, sub(p.val), st, p.implicit)


def _order(t):
    return repr(t)


def _deco_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Attribute):
        return d.attr
    return getattr(d, "id", None)


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load(), lineno=t.lineno, end_lineno=t.end_lineno)
    if isinstance(t, ast.Attribute):
        return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
    return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())


def _has_exit(body):
    """does a loop body leave the loop early?"""
    def walk(n, inloop):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            return False
        if isinstance(n, (ast.Return, ast.Raise)):
            return True
        if isinstance(n, ast.Break) and not inloop:
            return True
        inl = inloop or isinstance(n, (ast.For, ast.While))
        return any(walk(c, inl) for c in ast.iter_child_nodes(n))
    return any(walk(s, False) for s in body)


def _kvise(e):
    if e.op == "tuple" and len(e.a) == 2:
        return mk("kv", *e.a)
    if e.op == "each":
        return mk("each", e.a[0], _kvise(e.a[1]))
    return mk("upd", e)


def isstr(t):
    return (t.op == "c" and isinstance(cval(t), str)) or t.op == "fmt"


def fmt_norm(parts):
    """parts: python strings or terms; result const or fmt term"""
    out = []
    for p in parts:
        if isinstance(p, T) and p.op == "c" and isinstance(cval(p), str):
            p = cval(p)
        if isinstance(p, T) and p.op == "fv" and p.a[0] == "" and p.a[1].op == "c" \
                and isinstance(cval(p.a[1]), str):
            p = cval(p.a[1])
        if isinstance(p, T) and p.op == "fv" and p.a[0] == "" and p.a[1].op == "fmt":
            for q in p.a[1].a:
                q = cval(q) if q.op == "c" else q
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                else:
                    out.append(q)
            continue
        if isinstance(p, T) and p.op == "fmt":
            for q in p.a:
                q = cval(q) if q.op == "c" else q
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                else:
                    out.append(q)
            continue
        if isinstance(p, T) and p.op != "fv":
            p = mk("fv", "", p)
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    if not out:
        return const("")
    if len(out) == 1 and isinstance(out[0], str):
        return const(out[0])
    return mk("fmt", *[const(p) if isinstance(p, str) else p for p in out])


def fmt_join(parts):
    return fmt_norm(list(parts))


_PCT = re.compile(r"%(?:\((\w+)\))?([#0\- +]*\d*(?:\.\d+)?)([srdixXfeEgGc%])")


def fmt_percent(s, arg):
    vals = list(arg.a) if arg.op == "tuple" else [arg]
    parts, pos, i = [], 0, 0
    for m in _PCT.finditer(s):
        parts.append(s[pos:m.start()])
        pos = m.end()
        if m.group(3) == "%":
            parts.append("%")
            continue
        if m.group(1) or i >= len(vals):
            return mk("binop", "Mod", const(s), arg)
        conv = m.group(2) + ("" if m.group(3) == "s" else m.group(3))
        parts.append(mk("fv", conv, vals[i]))
        i += 1
    parts.append(s[pos:])
    if i != len(vals):
        return mk("binop", "Mod", const(s), arg)
    return fmt_norm(parts)


def fmt_format(s, args, kws):
    import string
    kw = dict(kws)
    parts, auto = [], 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(s):
            parts.append(lit)
            if field is None:
                continue
            if field == "":
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                return None
            parts.append(mk("fv", (conv or "") + (spec or ""), v))
    except (ValueError, IndexError):
        return None
    return fmt_norm(parts)


def canon_args(fi, args, kws, bound=False):
    """rewrite keyword arguments to positional ones where the signature allows it"""
    a = fi.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    args, kws = list(args), list(kws)
    while True:
        i = len(args)
        if i >= len(pos):
            break
        for j, (k, v) in enumerate(kws):
            if k == pos[i]:
                args.append(v)
                del kws[j]
                break
        else:
            break
    return args, kws
