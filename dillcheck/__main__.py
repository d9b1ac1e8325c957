"""python3 -m dillcheck PROPERTY [--tier quick|thorough] [--repo DIR] [--verbose]"""
import argparse
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings():
    out = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: "):
                head, _, what = line[7:].partition(" -- ")
                kv = dict(x.partition("=")[::2] for x in head.split())
                out[(kv["property"], kv["rule"], kv["construct"])] = what
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    sys.setrecursionlimit(20000)
    t0 = time.time()
    from .lib import Ctx
    from .program import AnalysisError
    from . import loops
    from .meta import P
    from .rules import RULES
    pid = a.pid
    ctx = Ctx(a.repo, pid, a.tier)
    broken = []
    for r in RULES[pid]:
        try:
            r(ctx)
        except AnalysisError as e:
            broken.append(str(e))
    loops.check(ctx)
    try:
        per = {}
        for o in ctx.obs:
            per[o.rule] = per.get(o.rule, 0) + 1
        bad = [o for o in ctx.obs if not o.ok]
        if broken and not any((pid, o.rule, o.construct) not in known_findings() for o in bad):
            raise AnalysisError("; ".join(broken))
        if not bad:
            for rule, n in ctx.floors.items():
                if per.get(rule, 0) < n:
                    raise AnalysisError("rule %s applied to %d constructs, at least %d expected" % (
                        rule, per.get(rule, 0), n))
        if not ctx.obs:
            raise AnalysisError("no obligations")
    except AnalysisError as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    known = known_findings()
    new, kf = [], []
    for o in bad:
        k = (pid, o.rule, o.construct)
        (kf if k in known else new).append(o)
    evdir = os.path.join(ROOT, "evidence")
    if not a.no_evidence:
        os.makedirs(evdir, exist_ok=True)
    replay = os.path.join(evdir, "%s.violation.txt" % pid)
    text = []
    seen = set()
    for o in new:
        s = "%s:%d: rule %s: %s: %s" % (o.file, o.line, o.rule, o.construct, o.msg)
        if s not in seen:
            seen.add(s)
            text.append(s)
    ok = [o for o in ctx.obs if o.ok]
    if not a.no_evidence:
        if text:
            with open(replay, "w") as f:
                f.write("\n".join(text) + "\n")
        elif os.path.exists(replay):
            os.remove(replay)
        ev = dict(
            property=pid, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1),
            level="other",
            coverage=dict(
                explanation="Static analysis of the current sources of %s; each obligation is one rule "
                            "applied to one construct (function path, call site, table entry). "
                            "Technique: %s. %s" % (a.repo, P[pid]["technique"], P[pid]["note"]),
                obligations=len(ctx.obs), discharged=len(ok),
                rules=per, functions_analysed=sorted(ctx.nfuncs), paths_analysed=ctx.npaths,
                sources_digest=ctx.prog.digest,
                modules=sorted(ctx.prog.modules),
                samples=[{"rule": o.rule, "construct": o.construct,
                          "where": "%s:%d" % (o.file, o.line)} for o in ctx.obs[:40]],
                known_findings=[o.construct for o in kf]),
            assumptions=["the standard library's pickle module behaves as documented",
                         "exceptions arise at calls, subscripts and attribute accesses only"],
            wall_s=round(time.time() - t0, 3), violations=len(text))
        with open(os.path.join(evdir, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for o in kf:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, o.construct, known[(pid, o.rule, o.construct)]))
    if a.verbose:
        for o in ctx.obs:
            print("%-4s %-14s %s" % ("ok" if o.ok else "BAD", o.rule, o.construct))
    for s in text:
        print(s)
    if text:
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    print("ok property=%s obligations=%d functions=%d paths=%d %.1fs" % (
        pid, len(ctx.obs), len(ctx.nfuncs), ctx.npaths, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
