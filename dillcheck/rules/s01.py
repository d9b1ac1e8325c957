"""S01: how session files are opened; S02: the default path; S03: who closes what."""
import ast

from .. import terms as tm
from ..lib import facts, is_helper, result, run_with_closures, show
from ..program import AnalysisError
from . import rule

S = "dill.session."
OPS = {"dump_module": ("write", "_safe_open_for_writing"), "load_module": ("read", "_safe_open_for_reading"),
       "load_module_asdict": ("read", "_safe_open_for_reading")}
NOFOLLOW = {S + "_O_NOFOLLOW", "os.O_NOFOLLOW", "getattr(os, 'O_NOFOLLOW', 0)"}
HARMLESS = {"os.O_CLOEXEC", "getattr(os, 'O_CLOEXEC', 0)", "getattr(os, 'O_BINARY', 0)", "os.O_BINARY",
            "os.O_NOCTTY"}
# calls that open (or replace) a file by name
OPENERS = {"builtins.open", "open", "io.open", "io.open_code", "io.FileIO", "_io.open", "_io.FileIO", "codecs.open",
           "os.open", "os.popen", "os.mkfifo", "os.creat", "os.rename", "os.replace", "os.link", "os.symlink",
           "os.truncate", "shutil.copy", "shutil.copyfile", "shutil.move", "tempfile.mkstemp", "tempfile.mktemp",
           "tempfile.NamedTemporaryFile", "tempfile.TemporaryFile", "gzip.open", "bz2.open", "lzma.open",
           "fileinput.input", "pathlib.Path", "shelve.open", "_pyio.open", "dill._dill.open", "dbm.open",
           "mmap.mmap", "os.unlink", "os.remove"}
METHODS = {"open", "write_bytes", "read_bytes", "write_text", "read_text", "touch", "unlink", "rename"}


def opener(t):
    f = t.a[0]
    s = show(f)
    if f.op == "g" and (s in OPENERS or s.endswith((".open", ".FileIO"))):
        return s
    if f.op == "attr" and f.a[1] in METHODS:
        return "." + f.a[1]
    return None


def flags_of(t):
    if t.op == "bitor":
        out = set()
        for x in t.a:
            out |= flags_of(x)
        return out
    return {show(t)}


def keep(kind, t, x=None):
    if kind in ("call", "raises"):
        if x is not None:
            return False
        s = show(t.a[0])
        return opener(t) is not None or s in (S + "_check_symlink", "os.fdopen", "os.lstat", "os.stat",
                                               "os.path.islink") or s.endswith("unlink")
    return kind in ("except", "raise")


@rule("S01")
def opening(ctx):
    n = 0
    for qual in sorted(q for q in ctx.prog.funcs if q.startswith(S)):
        for fi in ctx.prog.funcs[qual]:
            if is_helper(ctx, fi):
                continue
            for f, p in run_with_closures(ctx, fi, keep=keep, raises="all", excev=True, track=lambda a: True):
                n += judge_open(ctx, f, p)
    ctx.floor("S01.flags", 3)
    for fi in ctx.funcs(S + "_safe_open_for_writing"):
        fdopen(ctx, fi, "wb", "os.O_WRONLY")
    for fi in ctx.funcs(S + "_safe_open_for_reading"):
        fdopen(ctx, fi, "rb", "os.O_RDONLY")


def judge_open(ctx, fi, p):
    checked, failed, n = set(), {}, 0
    evs = list(p.events)
    for i, e in enumerate(evs):
        if e.kind not in ("call", "raises"):
            continue
        s = show(e.t.a[0])
        a = list(tm.cargs(e.t))
        if s == S + "_check_symlink" and e.kind == "call":
            checked.add(show(a[0]))
            continue
        o = opener(e.t)
        if o is None:
            continue
        n += 1
        name = "%s calls %s" % (fi.qual, o)
        if fi.qual.startswith(S + "_safe_open") and s != "os.open" or s != "os.open":
            ctx.ob("S01.by-name", name, False, "a file is opened by name in another way than os.open with O_NOFOLLOW",
                   fi, e.line)
            continue
        kw = tm.ckw(e.t)
        path = show(a[0]) if a else show(kw.get("path"))
        fl = flags_of(a[1] if len(a) > 1 else kw["flags"])
        mode = a[2] if len(a) > 2 else kw.get("mode")
        ctx.ob("S01.nofollow", name, bool(fl & NOFOLLOW), "the opening call follows a symbolic link (flags %s)"
               % sorted(fl), fi, e.line)
        rest = fl - NOFOLLOW - HARMLESS
        prior = [x for x in failed.get(path, [])]
        if rest == {"os.O_RDONLY"} or not rest:
            ctx.ob("S01.flags", name + " (read)", path in checked, "the file is opened for reading without a check for "
                   "a symbolic link before", fi, e.line)
        elif rest == {"os.O_CREAT", "os.O_EXCL", "os.O_WRONLY"}:
            ctx.ob("S01.flags", name + " (create)", mode is not None and show(mode) == "384",
                   "a new session file is created with permissions %s instead of 0o600" % (
                       "0o777" if mode is None else oct(tm.cval(mode)) if tm.is_const(mode) and
                       isinstance(tm.cval(mode), int) else show(mode)), fi, e.line)
        elif rest == {"os.O_TRUNC", "os.O_WRONLY"}:
            ctx.ob("S01.flags", name + " (overwrite)", path in checked,
                   "an existing file is overwritten without a check for a symbolic link before", fi, e.line)
            ctx.ob("S01.exclusive", name, prior == ["FileExistsError"],
                   "an existing file may only be opened after exclusive creation failed because it exists "
                   "(established: %s)" % (prior or "nothing"), fi, e.line)
        else:
            ctx.ob("S01.flags", name, False, "a session file is opened with flags %s" % sorted(fl), fi, e.line)
        if e.kind == "raises" and "os.O_EXCL" in fl:
            nx = evs[i + 1] if i + 1 < len(evs) else None
            if nx is not None and nx.kind == "except":
                failed.setdefault(path, []).append(show(nx.t))
    return n


def fdopen(ctx, fi, mode, acc):
    """the descriptor that was opened is what is returned, in the right mode"""
    for p in ctx.run(fi, keep=keep, raises="all", excev=True, track=lambda a: True):
        if p.ctl != "ret":
            ctx.ob("S01.result", fi.qual, True, "", fi)
            continue
        ops = [e for e in p.events if e.kind == "call" and show(e.t.a[0]) == "os.open"]
        ok = len(ops) == 1 and show(p.val) in ("os.fdopen(%s, '%s')" % (show(ops[0].t), mode),
                                                "os.fdopen(%s, mode='%s')" % (show(ops[0].t), mode),
                                                "open(%s, '%s')" % (show(ops[0].t), mode))
        ok = ok and acc in flags_of(tm.cargs(ops[0].t)[1])
        ctx.ob("S01.result", fi.qual, ok, "the function must return the descriptor it opened, in mode %r; found %s"
               % (mode, result(p)), fi)


@rule("S01")
def check(ctx):
    """_check_symlink raises exactly for links"""
    R = "S01.check"
    for fi in ctx.funcs(S + "_check_symlink"):
        ps = ctx.run(fi, raises="all", excev=True, track=lambda a: True)
        for p in ps:
            f = facts(p)
            link = [v for k, v in f.items() if "S_ISLNK" in k or "islink" in k]
            bad = [k for k in f if "os.stat(" in k or "os.path.exists" in k or "is_file" in k]
            ctx.ob(R, fi.qual, not bad, "the check looks at the target of the link (%s)" % bad, fi)
            if any(e.kind == "except" for e in p.events):
                fa = any(e.kind == "raises" and show(e.t.a[0]) == "os.lstat" for e in p.events)
                ctx.ob(R, fi.qual + " (missing file)", fa and p.ctl == "ret" or p.ctl == "raise",
                       "only a missing file may be accepted without an answer", fi)
            elif p.ctl == "ret":
                ctx.ob(R, fi.qual, link == [False], "a path is accepted although it may be a symbolic link", fi)
            elif not p.implicit:
                ctx.ob(R, fi.qual, link == [True] and "OSError" in show(p.val),
                       "a link must be refused with an OSError: %s" % result(p), fi)
        args = [show(e.t) for p in ps for e in p.events if e.kind == "call" and
                show(e.t.a[0]) in ("os.lstat", "os.path.islink")]
        pn = fi.node.args.args[0].arg
        ctx.ob(R, fi.qual + " (path)", bool(args) and all("(%s)" % pn in a for a in args),
               "the given path itself must be examined: %s" % sorted(set(args)), fi)
    tree = ctx.prog.modules["dill.session"].tree
    vals = [ast.unparse(st.value) for st in tree.body if isinstance(st, ast.Assign) and
            any(isinstance(t, ast.Name) and t.id == "_O_NOFOLLOW" for t in st.targets)]
    ctx.ob("S01.constant", "dill.session._O_NOFOLLOW", vals in (["getattr(os, 'O_NOFOLLOW', 0)"], []),
           "the flag must be the system's O_NOFOLLOW: %s" % vals)


# ------------------------------------------------------------------ S02
TRK = ("filename",)


def io_track(a):
    s = show(a)
    return s in ("filename is None",) or s.startswith(("hasattr(filename", "hasattr(dill.session.SESSION_TEMPFILE")) or \
        (a.op in ("is", "eq") and "_safe_open" in s)


def feasible(p):
    """a path name is no stream, and a file that was just opened is neither a path nor a stream given"""
    for k, v in p.facts.items():
        s = show(k)
        if v and s.startswith("hasattr(dill.session.SESSION_TEMPFILE"):
            return False
        if v and (" is " in s or " == " in s) and any(
                x.startswith((S + "_safe_open", S + "_make_peekable(" + S + "_safe_open")) and
                y in ("filename", S + "SESSION_TEMPFILE", "None")
                for a, b in [s.replace(" == ", " is ").split(" is ", 1)] for x, y in ((a, b), (b, a))):
            return False
    return True


def io_keep(kind, t, x=None):
    if kind not in ("call", "raises", "with+", "with-", "raise"):
        return False
    if kind in ("with+", "with-"):
        return True
    if kind == "raise":
        return False
    if x is not None:
        return False
    s = show(t.a[0])
    return opens(t) or s == "warnings.warn" or s == S + "_warn_if_default_path" or \
        (t.a[0].op == "attr" and t.a[0].a[1] in ("close", "__exit__", "__enter__", "detach")) or s in (
            S + "_make_peekable", S + "load_module", S + "_identify_module", "dill._dill.Pickler",
            "dill._dill.Unpickler")


def opens(t):
    return t.a[0].op == "g" and t.a[0].a[0].startswith(S + "_safe_open")


def io_paths(ctx, name):
    for fi in ctx.funcs(S + name):
        yield fi, [p for p in ctx.run(fi, keep=io_keep, raises="all", track=io_track,
                                      inline=frozenset({S + "_warn_if_default_path"})) if feasible(p)]


@rule("S02")
def default(ctx):
    for name, (meth, op) in sorted(OPS.items()):
        for fi, ps in io_paths(ctx, name):
            n = 0
            for p in ps:
                f = facts(p)
                stream = f.get("hasattr(filename, '%s')" % meth)
                none = f.get("filename is None")
                seq = []
                for e in p.events:
                    if e.kind == "call" and show(e.t.a[0]) == "warnings.warn":
                        a, kw = list(tm.cargs(e.t)), tm.ckw(e.t)
                        c = a[1] if len(a) > 1 else kw.get("category")
                        if c is not None and show(c).endswith("SecurityWarning"):
                            seq.append(("warn", e.line))
                    elif e.kind in ("call", "raises") and opens(e.t):
                        seq.append((show(e.t).replace("os.fspath(filename)", "filename").replace(S, ""), e.line))
                if not seq and stream is None:
                    continue            # left before looking at the file
                n += 1
                kinds = [k for k, _ in seq]
                line = seq[0][1] if seq else fi.node.lineno
                ops_ = [k for k in kinds if k != "warn"]
                if stream is True:
                    ctx.ob("S02.stream", fi.qual, not kinds, "a stream was given, but %s" % kinds, fi, line)
                    continue
                if not ops_:
                    continue            # failed before opening
                if none is True:
                    want = ["warn", "%s(SESSION_TEMPFILE)" % op]
                elif none is False:
                    want = ["%s(filename)" % op]
                else:
                    want = ["?"]
                ctx.ob("S02.table", fi.qual, kinds == want, "with %s the operation must do %s; found %s" % (
                    "no file given" if none else "a file given" if none is False else
                    "the default path not told apart", want, kinds), fi, line)
            if n < 3:
                raise AnalysisError("%s: the opening of the file was not found" % name)
    t = ctx.prog.modules["dill.session"].tree
    bases = [[ast.unparse(b) for b in c.bases] for c in t.body if isinstance(c, ast.ClassDef)
             and c.name == "SecurityWarning"]
    ctx.ob("S02.category", "dill.session.SecurityWarning", bases and bases[0] and bases[0][0] in (
        "UserWarning", "Warning", "RuntimeWarning"), "the warning would be silent by default: %s" % bases)
    vals = [ast.unparse(st.value) for st in t.body if isinstance(st, ast.Assign) and
            any(isinstance(x, ast.Name) and x.id == "SESSION_TEMPFILE" for x in st.targets)]
    ctx.ob("S02.path", "dill.session.SESSION_TEMPFILE", len(vals) == 1, "one default path: %s" % vals)


# ------------------------------------------------------------------ S03
def base_file(t):
    """the stream behind a peekable wrapper"""
    while t.op == "call" and show(t.a[0]) in (S + "_make_peekable", S + "_PeekableReader") and tm.cargs(t):
        t = tm.cargs(t)[0]
    return t


@rule("S03")
def closing(ctx):
    for name, (meth, op) in sorted(OPS.items()):
        for fi, ps in io_paths(ctx, name):
            n = 0
            for p in ps:
                opened, closed, line = [], [], fi.node.lineno
                for e in p.events:
                    s = show(e.t)
                    if e.kind == "call" and opens(e.t):
                        opened.append(s)
                        line = e.line
                    elif e.kind == "with-":
                        closed.append((show(base_file(e.t)), e.line))
                    elif e.kind == "call" and e.t.a[0].op == "attr" and e.t.a[0].a[1] in ("close", "__exit__"):
                        closed.append((show(base_file(e.t.a[0].a[0])), e.line))
                cl = [c for c, _ in closed]
                for o in opened:
                    n += 1
                    ctx.ob("S03.close", fi.qual, o in cl, "the file opened here stays open on the path that ends with %s"
                           % result(p), fi, line)
                for c, ln in closed:
                    if c not in opened:
                        ctx.ob("S03.stream", fi.qual, False, "%s is closed, which the function has not opened" % c, fi, ln)
                if not opened:
                    ctx.ob("S03.stream", fi.qual, True, "", fi)
            if not n:
                raise AnalysisError("%s opens nothing" % name)


@rule("S03")
def wrappers(ctx):
    """an object wrapped around the caller's stream does not close it when it is collected"""
    R = "S03.wrapper"
    tree = ctx.prog.modules["dill.session"].tree
    classes = {c.name: c for c in ast.walk(tree) if isinstance(c, ast.ClassDef)}
    n = 0
    for fi in ctx.funcs(S + "_make_peekable"):
        for p in ctx.run(fi, raises="all", track=lambda a: True):
            for e in p.events:
                if e.kind != "call" or not any(show(x) == "stream" for x in tm.cargs(e.t)):
                    continue
                f = show(e.t.a[0])
                c = classes.get(f.rpartition(".")[2])
                n += 1
                if f.startswith(("io.", "_io.")):
                    ctx.ob(R, "%s -> %s" % (fi.qual, f), False,
                           "%s closes the stream of the caller when it is collected" % f, fi, e.line)
                    continue
                if c is None:
                    continue
                bases = [ast.unparse(b) for b in c.bases]
                defs = {m.name: m for m in c.body if isinstance(m, ast.FunctionDef)}
                for m in ("__del__",) + (("close",) if any(b.startswith("io.") for b in bases) else ()):
                    d = defs.get(m)
                    if d is None:
                        ctx.ob(R, "%s.%s" % (f, m), m == "__del__" and True or False,
                               "the base class closes the stream of the caller when the object is collected", fi, c.lineno)
                        continue
                    bad = [ast.unparse(x) for x in ast.walk(d) if isinstance(x, ast.Call) and
                           ("close" in ast.unparse(x.func) or "super" in ast.unparse(x.func))]
                    ctx.ob(R, "%s.%s" % (f, m), not bad, "%s closes the stream of the caller" % bad, fi, d.lineno)
    ctx.floor(R, 1)
