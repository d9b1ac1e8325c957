"""Rules per property: RULES[pid] = list of functions taking a Ctx."""
import importlib
import os
import pkgutil

RULES = {}


def rule(*pids, also=None):
    """register a function for these properties; `also` maps further properties to the prefixes of
    the rules that count for them"""
    def deco(f):
        for pid in pids:
            RULES.setdefault(pid, []).append(f)
        for pid, prefixes in (also or {}).items():
            def part(ctx, prefixes=tuple(prefixes)):
                n, floors = len(ctx.obs), dict(ctx.floors)
                try:
                    f(ctx)
                finally:
                    ctx.obs[n:] = [o for o in ctx.obs[n:] if o.rule.startswith(prefixes)]
                    ctx.floors = {r: v for r, v in ctx.floors.items() if r in floors or r.startswith(prefixes)}
            RULES.setdefault(pid, []).append(part)
        return f
    return deco


for _m in sorted(m.name for m in pkgutil.iter_modules([os.path.dirname(__file__)])):
    importlib.import_module(__name__ + "." + _m)
