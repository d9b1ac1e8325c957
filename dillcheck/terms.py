"""Hash-consed value numbers (terms) used by the dataflow engine.

A term is an immutable, interned node; two expressions of the analysed
program get the same term exactly when the value-numbering rules of the
engine identify them (``is`` comparison on terms is therefore enough).
"""


class T:
    __slots__ = ("op", "a", "_h", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h


_table = {}


def mk(op, *a):
    # constants carry their type so that 0/False/0.0 stay distinct
    key = (op,) + tuple((type(x).__name__, x) if not isinstance(x, T) else x for x in a)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t._h = hash(key)
        _table[key] = t
    return t


def const(v):
    if isinstance(v, (tuple, frozenset)):
        if isinstance(v, tuple):
            return mk("tuple", *[const(x) for x in v])
    return mk("c", type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def g(name):
    return mk("g", name)


def attr(t, name):
    return mk("attr", t, name)


def call(f, args=(), kw=(), n=0):
    """opaque/pure call term.  kw: tuple of (name, term) sorted"""
    return mk("call", f, mk("args", *args), mk("kw", *[mk("kwarg", k, v) for k, v in kw]), n)


def tup(*xs):
    return mk("tuple", *xs)


def is_const(t):
    return t.op == "c"


def cval(t):
    return t.a[1]


def callee(t):
    return t.a[0] if t.op == "call" else None


def cargs(t):
    return t.a[1].a


def ckw(t):
    return {k.a[0]: k.a[1] for k in t.a[2].a}


def is_g(t, name):
    return t.op == "g" and t.a[0] == name


def gname(t):
    return t.a[0] if t.op == "g" else None


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return
    seen.add(t)
    yield t
    for x in t.a:
        if isinstance(x, T):
            yield from subterms(x, seen)


def subst(t, f):
    """bottom-up rewrite"""
    na = tuple(subst(x, f) if isinstance(x, T) else x for x in t.a)
    nt = t if all(p is q for p, q in zip(na, t.a)) else mk(t.op, *na)
    return f(nt)


_SHORT = {"builtins.": ""}


_shown = {}


def show(t, depth=0):
    if not isinstance(t, T):
        return repr(t)
    r = _shown.get(t)
    if r is None:
        r = _shown[t] = _show(t, depth)
    return r


def _show(t, depth=0):
    if depth > 300:
        return "..."
    d = depth + 1
    op, a = t.op, t.a
    s = lambda x: show(x, d)
    if op == "c":
        return repr(a[1])
    if op == "g":
        n = a[0]
        return n[9:] if n.startswith("builtins.") else n
    if op == "p":
        return a[0]
    if op == "attr":
        return ("(%s).%s" if getattr(a[0], "op", "") in ("not", "is", "eq", "lt", "in") else "%s.%s") % (s(a[0]), a[1])
    if op == "call":
        args = [s(x) for x in a[1].a] + ["%s=%s" % (k.a[0], s(k.a[1])) for k in a[2].a]
        return "%s(%s)%s" % (s(a[0]), ", ".join(args), "#%d" % a[3] if a[3] else "")
    if op == "ident":
        return s(a[0]) + "@"
    if op == "star":
        return "*" + s(a[0])
    if op == "tuple":
        return "(" + ", ".join(map(s, a)) + ("," if len(a) == 1 else "") + ")"
    if op == "list":
        return "[" + ", ".join(map(s, a)) + "]"
    if op == "set":
        return "{" + ", ".join(map(s, a)) + "}"
    if op == "dict":
        return "{" + ", ".join(map(s, a)) + "}"
    if op == "kv":
        return "%s: %s" % (s(a[0]), s(a[1]))
    if op == "upd":
        return "**" + s(a[0])
    if op == "sub":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if op == "elem":
        return "elem(%s)" % s(a[0])
    if op == "not":
        return "not " + s(a[0])
    if op == "is":
        return "%s is %s" % (s(a[0]), s(a[1]))
    if op == "eq":
        return "%s == %s" % (s(a[0]), s(a[1]))
    if op == "lt":
        return "%s < %s" % (s(a[0]), s(a[1]))
    if op == "in":
        return "%s in %s" % (s(a[0]), s(a[1]))
    if op == "fmt":
        return "fmt(" + " ".join(map(s, a)) + ")"
    return "%s(%s)" % (op, ", ".join(s(x) for x in a))
