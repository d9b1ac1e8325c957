"""D02: the temporary dump and load helpers are inverses on the same file or buffer."""
import re

from .. import terms as tm
from ..lib import OneOf, calls, callee_is, facts, result, show
from ..program import AnalysisError
from . import rule

TP = "dill.temp."
FILE_OPTS = {"suffix", "prefix", "dir", "delete", "mode", "buffering", "encoding", "newline", "errors"}


def canon(s):
    s = re.sub(r"(?:popped|get)\(\*\*kwds, '(\w+)', ('[^']*'|None)\)", r"<\1=\2>", s)
    s = re.sub(r"\.decode\('utf-?8'\)", ".decode()", s)
    for _ in range(3):
        s = re.sub(r"(eval|exec)\(fmt\(fv\('', (.*?)\)\)(?=, )", r"\1(\2", s)
        s = re.sub(r"^fmt\(fv\('', (<\w+='[^']*'>)\)\)$", r"\1", s)
    return s


def kwds_effects(p):
    """operations on the option dictionary: (op, key, value)"""
    out = []
    for e in p.events:
        if e.kind == "mut" and show(e.t) == "**kwds":
            out.append(tuple(tm.cval(x) if tm.is_const(x) else show(x) for x in e.x.a))
        elif e.kind in ("setitem", "delitem") and show(e.t) == "**kwds":
            a = e.x.a if e.kind == "setitem" else (e.x,)
            out.append((e.kind,) + tuple(tm.cval(x) if tm.is_const(x) else show(x) for x in a))
    return out


def known_params(fi):
    a = fi.node.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}


def options(ctx, rule, fi, p, consumed, defaults):
    """only the helper's own options are taken out, only the stated defaults are put in"""
    for op in kwds_effects(p):
        if op[0] in ("pop", "delitem"):
            ok = op[1] in consumed
        elif op[0] in ("setdefault", "setitem"):
            ok = len(op) > 2 and (op[1], op[2]) in defaults and (op[0] == "setdefault" or facts(p).get(
                "'%s' in **kwds" % op[1]) is False)
        else:
            ok = op[0] in ("get", "copy", "items", "keys")
        ctx.ob(rule, "%s options" % fi.qual, ok,
               "the caller's option %r is changed by %s before the file gets it" % (op[1] if len(op) > 1 else "*", op), fi)


def rets(ps, fi):
    out = [p for p in ps if p.ctl == "ret"]
    if not out:
        raise AnalysisError("no normal path in %s" % fi.qual)
    return out


def order(p):
    return [canon(c) for c in calls(p)]


@rule("D02")
def plain(ctx):
    R = "D02.pickle"
    for fi in ctx.funcs(TP + "dump"):
        for p in rets(ctx.paths(fi, ("object",)), fi):
            f = canon(show(p.val))
            ok = re.fullmatch(r"tempfile\.NamedTemporaryFile\((delete=<delete=True>, )?\*\*=\*\*kwds\)", f)
            ctx.ob(R, fi.qual + " file", bool(ok), "the handle returned is %s, expected a named temporary file "
                   "made with the caller's options" % f, fi)
            options(ctx, R, fi, p, {"delete"}, {("delete", True)})
            o = [c for c in order(p) if c != f and not c.startswith("dill.logger")]
            exp = [("dill._dill.dump(object, %s)" % f, "dill._dill.dump(object, file=%s)" % f), ("%s.flush()" % f,)]
            o = [c for c in o if not c.startswith(f + ".seek(")]
            ctx.ob(R, fi.qual, len(o) == 2 and all(x in y for x, y in zip(o, exp)),
                   "the object must be dumped to the file, which is then flushed and left open: %s" % o, fi)
    for fi in ctx.funcs(TP + "dumpIO"):
        for p in rets(ctx.paths(fi, ("object",)), fi):
            f = canon(show(p.val))
            ctx.ob(R, fi.qual + " buffer", f == "io.BytesIO()", "the handle returned is %s, expected an empty buffer" % f, fi)
            o = [c for c in order(p) if c not in (f, f + ".flush()")]
            ctx.ob(R, fi.qual, o in (["dill._dill.dump(object, %s)" % f], ["dill._dill.dump(object, file=%s)" % f]),
                   "the object must be dumped to the buffer: %s" % o, fi)
    for fi in ctx.funcs(TP + "load"):
        for p in rets(ctx.paths(fi, ("file",)), fi):
            options(ctx, R, fi, p, {"mode"}, {("mode", "rb")})
            f = canon(show(p.val))
            names = {"getattr(file, 'name', file)"}
            F = facts(p)
            if F.get("hasattr(file, 'name')"):
                names.add("file.name")
            elif F.get("hasattr(file, 'name')") is False:
                names.add("file")
            ok = any(re.fullmatch(r"dill\._dill\.load\(open\(%s, (mode=)?(<mode='rb'>|mode), \*\*=\*\*kwds\)\)" % re.escape(n), f)
                     for n in names)
            ok = ok or any(re.fullmatch(r"dill\._dill\.load\(open\(%s, \*\*=\*\*kwds\)\)" % re.escape(n), f) and
                           ("setdefault", "mode", "rb") in kwds_effects(p) for n in names)
            if "mode" in known_params(fi):
                d = dict(zip([x.arg for x in fi.node.args.kwonlyargs], fi.node.args.kw_defaults))
                dd = d.get("mode") or (fi.node.args.defaults or [None])[-1]
                ok = ok and getattr(dd, "value", None) == "rb"
            ctx.ob(R, fi.qual, ok, "must load the named file opened in the given mode (binary unless told otherwise) "
                   "with the caller's options: %s" % f, fi)
    for fi in ctx.funcs(TP + "loadIO"):
        for p in rets(ctx.paths(fi, ("buffer",)), fi):
            v = canon(show(p.val))
            exp = buffer_value(p)
            ctx.ob(R, fi.qual, v in tuple("dill._dill.load(io.BytesIO(%s))" % e for e in exp),
                   "must load from the start of the buffer's whole contents: %s" % v, fi)


def buffer_value(p, fname="buffer"):
    """spellings of the contents of a buffer (or of the contents themselves) on this path"""
    F = {k: v for k, v in facts(p).items() if "getvalue" in k}
    ga = "getattr(%s, 'getvalue', %s)" % (fname, fname)
    has = None
    for k, v in F.items():
        if k in ("%s == %s" % (fname, ga), "%s == %s" % (ga, fname), "%s is %s" % (ga, fname), "%s is %s" % (fname, ga)):
            has = not v
        elif k in ("hasattr(%s, 'getvalue')" % fname, "callable(%s)" % ga,
                   "callable(getattr(%s, 'getvalue', None))" % fname):
            has = v
        elif k.endswith(" is None") and k.startswith("getattr(%s, 'getvalue', None)" % fname):
            has = not v
    if has:
        return [ga + "()", fname + ".getvalue()", "getattr(%s, 'getvalue', None)()" % fname]
    if has is False:
        return [ga, fname]
    return []


@rule("D02")
def source_dump(ctx):
    R = "D02.source"
    for fi, buf in [(f, False) for f in ctx.funcs(TP + "dump_source")] + [(f, True) for f in ctx.funcs(TP + "dumpIO_source")]:
        for p in rets(ctx.paths(fi, ("object",)), fi):
            f = canon(show(p.val))
            if buf:
                ok = f == "io.BytesIO()"
            else:
                ok = re.fullmatch(r"tempfile\.NamedTemporaryFile\(suffix='\.py', \*\*=\*\*kwds\)", f) and \
                    (("suffix" in {o[1] for o in kwds_effects(p) if o[0] in ("pop", "delitem")}))
            ctx.ob(R, fi.qual + " handle", bool(ok), "the handle returned is %s" % f, fi)
            options(ctx, R, fi, p, {"alias", "suffix"} if not buf else {"alias"}, {("delete", True)})
            w = [e.t for e in p.events if e.kind == "call" and e.t.a[0].op == "attr" and e.t.a[0].a[1] in ("write", "writelines")]
            o = order(p)
            F = {canon(k): v for k, v in facts(p).items()}
            al = "<alias=''>"
            named = next((v for k, v in F.items() if k in (al, "fmt(fv('', %s))" % al, "str(%s)" % al)), None)
            nm = al if named else "dill.source.getname(object)"
            imp = ["dill.source.importable(object, %s)" % al, "dill.source.importable(object, alias=%s)" % al]
            want = {"dill.temp.b(fmt(fv('', %s) '\\n#NAME: ' fv('', %s) '\\n'))" % (i, nm) for i in imp} | \
                   {"dill.temp.b(fmt(fv('', %s) '\\n#NAME: ' %s '\\n'))" % (i, nm) for i in imp}
            got = canon(show(tm.cargs(w[0])[0])) if len(w) == 1 and tm.cargs(w[0]) else None
            got = got and re.sub(r"fmt\(fv\('', (<alias=''>)\)\)", r"\1", got)
            ctx.ob(R, fi.qual, named is not None and got in want and canon(show(w[0].a[0].a[0])) == f,
                   "must write the importable source and the line '#NAME: <alias or name>', in utf-8, to the handle "
                   "in one piece: writes %s" % got, fi)
            fl = [i for i, c in enumerate(o) if c == f + ".flush()"]
            wi = [i for i, c in enumerate(o) if c.startswith(f + ".write")]
            ctx.ob(R, fi.qual + " flush", buf or (bool(fl) and bool(wi) and fl[-1] > wi[-1]),
                   "the file must be flushed after it is written", fi)
            ctx.ob(R, fi.qual + " open", not any(c == f + ".close()" for c in o), "the handle is closed", fi)
    for fi in ctx.funcs(TP + "b"):
        for p in rets(ctx.paths(fi, ("x",)), fi):
            ctx.ob(R, fi.qual, show(p.val) in ("codecs.utf_8_encode(x)[0]", "x.encode('utf-8')", "x.encode('utf8')",
                                               "x.encode()", "bytes(x, 'utf-8')", "codecs.encode(x, 'utf-8')"),
                   "source text must be encoded so that every character survives: %s" % show(p.val), fi)


@rule("D02")
def source_load(ctx):
    R = "D02.source-load"
    for fi, buf in [(f, False) for f in ctx.funcs(TP + "load_source")] + [(f, True) for f in ctx.funcs(TP + "loadIO_source")]:
        ps = ctx.paths(fi, ("buffer",) if buf else ("file",), ids=True)
        nret = nraise = 0
        for p in ps:
            if p.ctl == "raise" and p.implicit:
                continue
            F = {canon(k): v for k, v in facts(p).items()}
            o = order(p)
            if buf:
                src = [v + ".decode()" for v in buffer_value(p)]
            else:
                fs = [c for c in o if c.startswith("open(") and not c.endswith(".read()")]
                pat = r"open\((getattr\(file, 'name', file\)|file\.name|file), (mode=)?(<mode='r'>|mode), \*\*=\*\*kwds\)"
                ok = len(set(fs)) == 1 and re.fullmatch(pat, fs[0])
                ctx.ob(R, fi.qual + " file", bool(ok), "must open the named file in the given mode with the caller's "
                       "options: %s" % fs, fi)
                if not fs:
                    continue
                src = [fs[0] + ".read()"]
                b = F.get("isinstance(%s, bytes)" % src[0])
                if b is None:
                    b = next((v for k, v in F.items() if re.fullmatch(r"'b' in <mode='r'>", k)), None)
                if b:
                    src = [src[0] + ".decode()"]
                ctx.ob(R, fi.qual + " text", b is not None, "contents read in binary mode are used as text", fi)
                options(ctx, R, fi, p, {"alias", "mode"}, {("encoding", "utf-8"), ("encoding", "utf8"), ("mode", "r")})
                text = F.get("'b' in <mode='r'>")
                enc = any(x[0] in ("setdefault", "setitem") and x[1] == "encoding" for x in kwds_effects(p))
                ctx.ob(R, fi.qual + " binary", not enc or text is False, "a file opened in binary mode is given an encoding, "
                       "which fails", fi)
                if text is not True and not b:
                    ctx.ob(R, fi.qual + " encoding", any(x[0] in ("setdefault", "setitem") and x[1] == "encoding"
                                                         for x in kwds_effects(p)) or "encoding=" in fs[0],
                           "the source is written in utf-8 but read in the locale's encoding", fi)
            if buf:
                options(ctx, R, fi, p, {"alias"}, set())
            given = F.get("<alias=None>")
            if given is None:
                given = next((not v for k, v in F.items() if k == "<alias=None> is None"), None)
            marks = [(k, v) for k, v in F.items() if "#NAME:" in k]
            last = ["%s.strip().splitlines()[-1]" % s for s in src] + ["%s.rstrip().splitlines()[-1]" % s for s in src] + \
                ["%s.splitlines()[-1]" % s for s in src]
            m = None
            for k, v in marks:
                for l_ in last:
                    if k in ("%s.split()[0] == '#NAME:'" % l_, "'#NAME:' == %s.split()[0]" % l_,
                             "%s.startswith('#NAME:')" % l_, "%s.startswith('#NAME: ')" % l_):
                        m = v
                        line = l_
            if p.ctl == "raise":
                nraise += 1
                ctx.ob(R, fi.qual + " unmarked", result(p) in ("raise IOError", "raise OSError") and given is False and m is False
                       and not any(c.startswith(("exec(", "eval(")) for c in o),
                       "only source without a name line and without alias may be refused, with an IOError: %s where %s" % (
                           result(p), sorted(F.items())[:3]), fi)
                continue
            nret += 1
            if given is None:
                ctx.ob(R, fi.qual + " alias", False, "whether an alias was given is not considered", fi)
                continue
            if given is False:
                ctx.ob(R, fi.qual + " marker", m is True, "the name is read from a line that need not be the name line", fi)
                if not m:
                    continue
            name = ["<alias=None>"] if given else ["%s.split()[-1]" % line, "%s.split()[1]" % line]
            ex = [c for c in o if c.startswith("exec(")]
            ns = None
            for s in src:
                if len(ex) == 1 and ex[0].startswith("exec(%s, " % s):
                    ns = ex[0][len("exec(%s, " % s):-1]
            v = canon(show(p.val))
            ok = ns is not None and ns.startswith("{}") and any(
                v in ("eval(%s, %s)" % (n, ns), "%s[%s]" % (ns, n)) for n in name)
            ctx.ob(R, fi.qual, ok, "must run exactly the source in a namespace of its own and return what the name "
                   "(%s) stands for there: %s after %s" % (name[0], v[-150:], [x[:120] for x in ex]), fi)
        if not nret or not nraise:
            ctx.ob(R, fi.qual + " unmarked", False, "source without a name line is never refused", fi)
    ctx.floor(R, 10)
