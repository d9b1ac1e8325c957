"""C13: file handles."""
import re
import ast

from .. import terms as tm
from ..lib import OneOf, handlers, pops, result, show
from ..program import AnalysisError
from . import rule

D = "dill._dill."
NAMES = ("name", "mode", "position", "closed", "open_", "strictio", "fmode", "fdata")
STD = {"<stdin>": "sys.__stdin__", "<stdout>": "sys.__stdout__", "<stderr>": "sys.__stderr__"}
STD_BY_NAME = "{%s}[name]" % ", ".join("'%s': %s" % kv for kv in STD.items())
STD_BY_NAME_GET = STD_BY_NAME[:-6] + ".get(name)"
HANDLE, CONTENTS, FILE = 0, 1, 2


def facts_of(p):
    return {show(k): v for k, v in p.facts.items()}


def fmode_is(A, n, var="fmode"):
    k = "%s == %d" % (var, n)
    v = A.get(k)
    if v is not None:
        return v
    for m in (0, 1, 2):
        if m != n and A.get("%s == %d" % (var, m)):
            return False
    return A(k)


@rule("C13")
def constants(ctx):
    t = ctx.prog.modules["dill._dill"].tree
    vals = {}
    for st in t.body:
        if isinstance(st, ast.Assign) and isinstance(st.value, ast.Constant):
            for x in st.targets:
                if isinstance(x, ast.Name) and x.id.endswith("_FMODE"):
                    vals[x.id] = st.value.value
    ctx.ob("C13.modes", "dill._dill *_FMODE", vals == {
        "HANDLE_FMODE": 0, "CONTENTS_FMODE": 1, "FILE_FMODE": 2},
        "the numbers of the file modes are part of the pickles: %s" % vals)


@rule("C13")
def save(ctx):
    R = "C13.save"

    def outcome(p):
        ops = [o.replace("open_(obj.name)", "open_(obj.name, 'r')").replace(
            "open_(obj.name, mode=", "open_(obj.name, ") for o in pops(p)]
        ops = [re.sub(r"enter\((open_\([^()]*\))\)", r"\1", o) for o in ops]
        seq = []
        for e in p.events:
            if e.kind != "call":
                continue
            s = show(e.t)
            if s in ("obj.flush()", "obj.tell()"):
                seq.append(s[4:])
            elif s.startswith("open_(") and s.endswith((".close()", ".read()")) or s.startswith("open_(obj"):
                seq.append("read" if s.endswith(".read()") else "close" if s.endswith(".close()") else "open")
            elif s.startswith("obj.") and e.t.a[0].op == "attr" and show(e.t.a[0].a[0]) == "obj":
                seq.append("!" + s)
        return (tuple(ops), tuple(seq))

    def spec(A):
        isd = A(D + "is_dill(pickler, True)")
        if A("obj.closed"):
            pos = "0"
        elif any(A.get("obj == sys.__%s__" % s) or A.get("obj is sys.__%s__" % s)
                 for s in ("stdin", "stdout", "stderr")):
            pos = "-1"
        elif all(A.get("obj == sys.__%s__" % s) is not None or A.get("obj is sys.__%s__" % s) is not None
                 for s in ("stdin", "stdout", "stderr")):
            pos = "obj.tell()"
        else:
            pos = "?"
        if isd and fmode_is(A, FILE, "pickler._fmode"):
            data = "open_(obj.name, 'rb').read()" if A("'b' in obj.mode") else "open_(obj.name, 'r').read()"
        else:
            data = "''"
        tail = "pickler._strictio, pickler._fmode" if isd else "False, 0"
        ops = ("reduce dill._dill._create_filehandle (obj.name, obj.mode, %s, obj.closed, open_, %s, %s) obj=obj"
               % (pos, tail, data),)
        if not isd:
            alt = (ops[0].replace(", False, 0, ", ", False, dill._dill.HANDLE_FMODE, "),)
        else:
            alt = ops
        closed = A("obj.closed")

        def pred(got):
            o, seq = got
            if o not in (ops, alt):
                return False
            if any(s.startswith("!") for s in seq):
                return False
            if not closed:
                if "flush()" not in seq:
                    return False
                first = min([seq.index(x) for x in ("tell()", "open", "read") if x in seq] or [99])
                if seq.index("flush()") > first:
                    return False
            elif "flush()" in seq:
                return False
            return ("close" in seq) if "read" in seq else True
        pred.__doc__ = "flush first if open, then %s" % (ops[0],)
        return pred
    H = handlers(ctx)
    for fi in ctx.funcs(D + "_save_file"):
        ctx.table(R, fi, ctx.paths(fi, ("pickler", "obj", "open_")), outcome, spec)
    kinds = ["FileType", "BufferedReaderType", "BufferedWriterType", "TextWrapperType", "BufferedRandomType",
             "PyBufferedReaderType", "PyBufferedWriterType", "PyTextWrapperType", "PyBufferedRandomType"]
    for k in kinds:
        ctx.ob("C13.handler", k, bool(H.get(k)), "no handler is registered for %s" % k)
        for fi in H.get(k, []):
            want = "_pyio.open" if k.startswith("Py") else "open"
            ps = ctx.paths(fi, ("pickler", "obj"))
            for p in ps:
                cs = [e.t for e in p.events if e.kind == "call" and show(e.t.a[0]) == D + "_save_file"]
                if not cs:
                    cs2 = [o for o in pops(p) if "_create_filehandle" in o]
                    ok = len(cs2) == 1 and (", obj.closed, %s, " % want) in cs2[0] or \
                        len(cs2) == 1 and (", obj.closed, io.%s, " % want) in cs2[0]
                    ctx.ob("C13.handler", "%s (%s)" % (fi.qual, k), ok, "stored as %s" % cs2, fi)
                    continue
                a = tm.cargs(cs[0])
                ctx.ob("C13.handler", "%s (%s)" % (fi.qual, k), len(cs) == 1 and len(a) == 3 and
                       show(a[1]) == "obj" and show(a[2]) in (want, "io." + want, "dill._dill." + want),
                       "opened with %s instead of %s" % (show(a[-1]), want), fi)


@rule("C13")
def restore(ctx):
    R = "C13.restore"
    for fi in ctx.funcs(D + "_create_filehandle"):
        ps = ctx.paths(fi, NAMES, excev=True)
        opened, guarded = set(), set()

        def texts(p):
            return [(e.kind, show(e.t)) for e in p.events]

        def is_open(s):
            return (s.startswith(("open_(", "tempfile.TemporaryFile(", "os.fdopen(")) and
                    not s.endswith((".close()",)) and ".write(" not in s and ".seek(" not in s)

        def outcome(p):
            ev = texts(p)
            if p.ctl == "raise":
                exc = [t for k, t in ev if k == "except" and t not in ("Exception",)]
                last = [t for k, t in ev if k == "call" and is_open(t)]
                f = facts_of(p)
                ass = any(k.endswith(".name") and v is False for k, v in f.items())
                return {"raise": result(p)[6:], "after": exc, "opens": last, "assert": ass}
            F = result(p)[4:]
            cs = [t for k, t in ev if k == "call"]
            return {"file": F, "writes": [c for c in cs if ".write(" in c], "opens": [c for c in cs if is_open(c)],
                    "close": [c for c in cs if c.endswith(".close()")],
                    "seek": [c[len(F) + 6:-1] for c in cs if c.startswith(F + ".seek(")] +
                    ["?" + c for c in cs if ".seek(" in c and not c.startswith(F + ".seek(")],
                    "trunc": [c for c in cs if ".truncate(" in c or "os.remove" in c or "os.unlink" in c]}

        def spec(A):
            std = [s for s in STD if A.get("name == '%s'" % s)]
            if not std and A.get("name in ('<stdin>', '<stdout>', '<stderr>')"):
                std = list(STD)
            special = None
            if std:
                special = "std"
            else:
                for s in STD:
                    if A.get("name == '%s'" % s) is None and not any(
                            A.get("name == '%s'" % x) for x in ("<fdopen>", "<tmpfile>")):
                        pass
                if A.get("name == '<tmpfile>'"):
                    special = "tmp"
                elif A.get("name == '<fdopen>'"):
                    special = "fd"
            ex = A.get("os.path.exists(name)")
            missing = not ex        # an error while looking counts as missing
            size = "0" if missing else "os.path.getsize(name)"
            closed = A.get("closed")
            strict = None if special else A("strictio")
            beyond = False
            if not special:
                if missing:
                    beyond = A.any("0 < position", "!position <= 0")
                else:
                    beyond = A.any("os.path.getsize(name) < position", "!position <= os.path.getsize(name)")
            isfile = fmode_is(A, FILE)
            iscont = fmode_is(A, CONTENTS)
            ishand = fmode_is(A, HANDLE)
            if not (isfile or iscont or ishand):
                ishand = None
            r, w = A.get("'r' in mode"), A.get("'w' in mode")
            x, plus, b = A.get("'x' in mode"), A.get("'+' in mode"), A.get("'b' in mode")
            isstr = A.get("isinstance(fdata, str)")

            def pred(got):
                if "raise" in got:
                    k = got["raise"]
                    if k == "FileNotFoundError":
                        return bool(not special and missing and strict) and not got["opens"]
                    if k == "ValueError":
                        return bool(not special and strict and beyond) and not got["opens"]
                    if k == "UnpicklingError":
                        return bool(got["after"]) and any(
                            n in got["after"][-1] for n in ("IOError", "OSError", "EnvironmentError"))
                    return k == "AssertionError" and got["assert"]
                F = got["file"]
                if special is None and strict and (missing or beyond):
                    return False
                if got["trunc"]:
                    return False
                # ---- which file
                plain = "open_(name, mode)"
                temp = "tempfile.TemporaryFile(mode)"
                fwrites = []
                nclose = []
                if special == "std":
                    if F not in {STD[s] for s in std} and F not in (STD_BY_NAME, STD_BY_NAME_GET):
                        return False
                    if F in STD.values() and len(std) != 1:
                        return False
                elif special == "tmp":
                    if F != "os.tmpfile()":
                        return False
                elif special == "fd":
                    if F not in (temp, "tempfile.TemporaryFile(mode=mode)"):
                        return False
                elif isfile:
                    if F != plain or w is None:
                        return False
                    wm = plain if w else "open_(name, 'wb')" if b else "open_(name, 'w')"
                    if not w and b is None:
                        return False
                    if got["opens"][:1] != [wm]:
                        return False
                    data = "fdata"
                    if b and isstr:
                        data = "fdata.encode()"
                    if b and isstr is None:
                        return False
                    fwrites = [wm + ".write(%s)" % data]
                    if not w:
                        nclose = [wm + ".close()"]
                        if got["opens"] != [wm, plain]:
                            return False
                    elif got["opens"] != [wm]:
                        return False
                elif missing and r:
                    if F != temp:
                        return False
                elif missing and r is None:
                    return False
                elif iscont and (w or x):
                    want = {"os.O_CREAT", "os.O_RDWR" if plus else "os.O_WRONLY"}
                    if plus is None or not F.startswith("os.fdopen(os.open(name, bitor(") or \
                            not F.endswith("), mode)"):
                        return False
                    fl = F[len("os.fdopen(os.open(name, bitor("):-len(")), mode)")]
                    if set(q.strip() for q in fl.split(",")) - {"os.O_CLOEXEC", "os.O_BINARY"} != want:
                        return False
                elif iscont and (w is None or x is None):
                    return False
                elif F != plain:
                    return False
                if got["writes"] != fwrites:
                    return False
                # ---- closed state and position
                if closed is None:
                    return False
                if closed:
                    return got["close"] == nclose + [F + ".close()"] and not got["seek"]
                if got["close"] != nclose:
                    return False
                P = {"position"}
                if not special and iscont:      # the smaller one
                    P = {size if beyond else "position", "min(position, %s)" % size, "min(%s, position)" % size}
                neg = None
                for q in P:
                    if neg is None:
                        neg = A.get("%s < 0" % q)
                    if neg is None and A.get("0 <= %s" % q) is not None:
                        neg = not A.get("0 <= %s" % q)
                if neg is None:
                    neg = False if "0" in P or (missing and beyond) or "os.path.getsize(name)" in P else None
                if got["seek"]:
                    return len(got["seek"]) == 1 and got["seek"][0] in P and neg is False and \
                        ishand is not True
                return bool(neg) or ishand is True
            pred.__doc__ = "the handle that mode, file mode and file system call for (see DESIGN.md, C13)"
            return pred
        ctx.table(R, fi, ps, outcome, spec)
        seen = set()
        for p in ps:
            ev = texts(p)
            f = facts_of(p)
            if p.ctl == "raise" and p.implicit:
                continue
            if p.ctl == "ret" and not any(f.get("name == '%s'" % s) for s in list(STD) + ["<tmpfile>"]):
                if f.get("name == '<fdopen>'") and not any("exists" in t for _, t in ev):
                    continue
                opened |= {t for k, t in ev if k == "call" and is_open(t)}
            if result(p) == "raise UnpicklingError":
                i = max(i for i, (k, t) in enumerate(ev) if k == "except") if any(
                    k == "except" for k, _ in ev) else 0
                guarded |= {t for k, t in ev[:i] if k == "raises" and is_open(t)}
            seen.add(result(p) if p.ctl == "raise" else "ret")
        for t in sorted(opened):
            ctx.ob("C13.errors", "%s %s" % (fi.qual, t[:40]), t in guarded,
                   "a failure of %s is not reported as an unpickling error" % t, fi)
        for k in ("raise FileNotFoundError", "raise ValueError", "raise UnpicklingError"):
            ctx.ob("C13.errors", "%s %s" % (fi.qual, k), k in seen, "no path ends with " + k, fi)
        ctx.floor(R, 100)
