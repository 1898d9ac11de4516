"""P25: what is given back is given back.  The histories are those of the other checks, each performed twice."""
from vp.check import *
from vp.props_threads import cache_histories

class Collect:
    """stands for a check: keeps the programs instead of running them"""
    def __init__(s, c): s.pid = c.pid; s.tier = c.tier; s.quick = True; s.seed = c.seed; s.rng = c.rng; s.work = c.work; s.real = c; s.got = []; s.models = []; s.extra = {}; s.assumptions = []; s.cov = c.cov; s.known = {}
    def driver(s, *a, **k): return None
    def left(s): return s.real.left()
    maximal = staticmethod(Check.maximal)
    def model(s, profile, depth, mode="paths", module="MCStore", **k):
        if module == "MCFiles" and profile in ("one", "two", "five"): return s.real.model(profile, depth, mode, module, **k)
        if module == "MCZip": return s.real.model(profile, min(depth, 6), mode, module, **k)
        if module == "MCCache": return s.real.model(profile, min(depth, 4), mode, module, **k)
        if module == "MCStore" and profile in ("clone", "merge", "strf", "growi"): return s.real.model(profile, min(depth, 3), mode, module, **k)
        return []
    def conform(s, programs, what, scale=4, module="Trace", exe=None, runner=None, **k):
        if runner is None and module == "Trace": s.got.append((what, scale, programs))
        return []
def twice(p):
    p = [{k: v for k, v in e.items() if k != "r"} for e in p]
    return [dict(op="mem")] + p + [dict(op="mem")] + p + [dict(op="mem")]

def P25(c, checks):
    cap = 110 if c.quick else 500; groups = {}
    for pid in sorted(checks):
        if pid in ("P11", "P22", "P23", "P24", "P25"): continue
        x = Collect(c)
        (cache_histories if pid == "P10" else checks[pid])(x)
        for what, scale, ps in x.got:
            ps = [p for p in ps if len(p) <= 260]; c.rng.shuffle(ps)
            groups.setdefault(scale, []).extend(ps[:cap])
            c.extra.setdefault("histories", []).append({"of": pid, "what": what, "taken": min(cap, len(ps))})
    for scale, ps in groups.items():
        c.conform([twice(p) for p in ps], "the histories of the other checks, twice", scale=scale)
def checks(ch): return {"P25": lambda c: P25(c, ch)}
