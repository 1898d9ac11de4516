"""Frame of a check: build, run, judge, confirm, report, evidence."""
from vp.core import *
import itertools, traceback

class First(Exception): pass

class Check:
    def __init__(s, pid, tier):
        s.pid = pid; s.tier = tier; s.seed = SEED; s.t0 = time.time(); s.quick = tier == "quick"
        s.work = tempfile.mkdtemp(prefix="vp_%s_" % pid); s.violations = []; s.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        s.extra = {}; s.exes = {}; s.models = []; s.assumptions = []; s.budget = 600 if s.quick else 3000
        s.known = load_known(pid); s.rng = random.Random("%s/%d" % (pid, s.seed))
    def left(s): return s.budget - (time.time() - s.t0)
    def driver(s, name="driver", src="driver.cpp", san="address", extra=(), opt="-O1"):
        if name not in s.exes:
            s.exes.update(build.build_driver(os.path.join(s.work, "b_" + name), {name: os.path.join(VERIF, "harness", src)}, san=san, extra=extra, opt=opt))
        return s.exes[name]
    # ---- spec level model checking and program generation
    def model(s, profile, depth, mode="paths", module="MCStore", env=None, timeout=None, want=True, cfg=None, heap="3g", tag=""):
        """TLC explores the bounded model; returns the programs it printed."""
        args = []
        e = {"PROFILE": profile, "DEPTH": str(depth), "MODE": mode}; e.update(env or {})
        rc, out = tlc(module + ".tla", (cfg or module) + ".cfg", e, s.work, "mc_%s_%s%s" % (module, profile, tag), timeout=timeout or max(60, s.left()), heap=heap, args=args)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
        if not m or "No error has been found" not in out:
            raise MachineryError("model %s/%s: %s" % (module, profile, "\n".join(l for l in out.split("\n") if "PROG" not in l)[-3000:]))
        s.cov["states"] += int(m.group(2)); s.cov["transitions"] += int(m.group(1))
        s.models.append({"module": module, "profile": profile, "depth": depth, "mode": mode, "distinct_states": int(m.group(2)), "transitions": int(m.group(1))})
        progs = []
        if want:
            for l in out.split("\n"):
                if l.startswith('<<"PROG", "'):
                    body = l[len('<<"PROG", '):-2]
                    progs.append(json.loads(json.loads(body)))
        return progs
    @staticmethod
    def maximal(progs):
        """drops programs that are proper prefixes of another one"""
        keys = sorted((tuple(json.dumps(e, sort_keys=True) for e in p), i) for i, p in enumerate(progs)); keep = []
        for a, b in itertools.zip_longest(keys, keys[1:]):
            if b is None or b[0][:len(a[0])] != a[0]: keep.append(a[1])
        return [progs[i] for i in sorted(keep)]
    # ---- conformance
    def conform(s, programs, what, scale=4, module="Trace", exe=None, runner=None, timeout=300, report=True):
        """Runs programs in the implementation and judges the traces. Records violations."""
        if not programs: return []
        if runner is None:
            exe = exe or s.driver()
            runner = lambda ps, tag: run_driver(exe, ps, s.work, tag, timeout)
        parts = 8 if len(programs) > 64 else min(4, len(programs)); chunk = (len(programs) + parts - 1) // parts
        slices = [programs[i:i + chunk] for i in range(0, len(programs), chunk)]
        with cf.ThreadPoolExecutor(len(slices)) as ex:
            runs = [r for rs in ex.map(lambda a: runner(a[1], "%s_%d" % (re.sub(r"\W", "", what), a[0])), enumerate(slices)) for r in rs]
        bad, st = judge(runs, s.work, "j", scale, module)
        s.cov["traces_validated_against_impl"] += len(programs); s.cov["states"] += st["states"]; s.cov["transitions"] += st["events"]
        s.extra.setdefault("conformance", []).append({"what": what, "programs": len(programs), "events": st["events"], "rejected": len(bad)})
        if len(s.cov["samples"]) < 3 and runs:
            r = max(runs[:20], key=len); s.cov["samples"].append({"what": what, "events": [{k: v for k, v in e.items() if k != "note"} for e in r[:12]], "of": len(r)})
        if not report: return bad
        if bad and os.environ.get("VP_FIRST"):      # tools/automut.py: the first rejection is enough
            s.violations.append((what, "")); raise First
        for i, j, why in bad[:6]:
            s.confirm(programs[i], what, scale, module, runner, why)
            if len(s.violations) >= 3: break
        return bad
    def fails(s, prog, scale, module, runner, tag="c"):
        runs = runner([prog], tag)
        bad, _ = judge(runs, s.work, tag, scale, module, chunks=1)
        return (bad[0], runs[0]) if bad else None
    def confirm(s, prog, what, scale, module, runner, why):
        f = s.fails(prog, scale, module, runner)
        if not f: f = s.fails(prog, scale, module, runner)
        if not f:
            s.extra.setdefault("unconfirmed", []).append(what); return
        # shrink: cut the tail, then drop single events as long as the program stays inside the contract
        t0 = time.time(); lim = 25 if not s.violations else 0; cur = prog[:f[0][1]] if f[0][1] <= len(prog) else prog
        def still(p):
            try: return s.fails(p, scale, module, runner, "d")
            except MachineryError: return None
        g = still(cur)
        if g: f = g
        else: cur = prog
        step = max(1, len(cur) // 2)
        while step >= 1 and time.time() - t0 < lim:
            k = 0; progress = False
            while k < len(cur) and time.time() - t0 < lim:
                cand = cur[:k] + cur[k + step:]
                g = still(cand) if cand else None
                if g: cur = cand; f = g; progress = True
                else: k += step
            if not progress or step > 1: step = step // 2
        (i, j, w), run = f
        s.violate(what, {"program": cur, "observed": run, "failing_event": run[j] if j < len(run) else None, "why": w, "scale": scale, "module": module})
    def violate(s, what, info):
        d = os.path.join(VERIF, "evidence", "replay"); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s_%d.json" % (s.pid, len(s.violations)))
        info = dict(info, property=s.pid, what=what, seed=s.seed)
        if isinstance(info.get("program"), list):
            try: info["commands"] = [line(e) for e in info["program"]]
            except Exception: pass
        with open(path, "w") as f: json.dump(info, f, indent=1, default=str)
        s.violations.append((what, path))
        print("VIOLATION property=%s replay=%s" % (s.pid, path)); sys.stdout.flush()
        fe = info.get("failing_event")
        print("  %s: %s" % (what, json.dumps({k: (v if k != "note" else v[-800:]) for k, v in fe.items()})[:1500] if isinstance(fe, dict) else str(info.get("why"))[:1500]))
    def known_finding(s, key, still_fails):
        """still_fails: whether the listed defect is still there."""
        if key not in s.known: 
            if still_fails: s.violate(key, {"why": "defect not listed in known_findings.txt"})
            return
        if still_fails: print("KNOWN-FINDING: property=%s %s" % (s.pid, s.known[key]))
    # ---- end
    def finish(s, level="model_checking"):
        if s.models: s.extra["models"] = s.models
        ev = {"property": s.pid, "tier": s.tier, "seed": s.seed, "level": level, "coverage": dict(s.cov, **s.extra), "assumptions": s.assumptions,
              "wall_s": round(time.time() - s.t0, 1), "violations": len(s.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", s.pid + ".json"), "w") as f: json.dump(short(ev), f, indent=1, default=str)
        shutil.rmtree(s.work, ignore_errors=True)
        print("%s %s: %d violation(s), %d states, %d transitions, %d executions validated, %.0f s" % (s.pid, s.tier, len(s.violations), s.cov["states"], s.cov["transitions"], s.cov["traces_validated_against_impl"], time.time() - s.t0))
        return 1 if s.violations else 0

def short(v):
    """Evidence stays small: long strings and lists in the samples are cut."""
    if isinstance(v, str): return v if len(v) <= 2000 else v[:200] + "... (%d characters)" % len(v)
    if isinstance(v, dict): return {short(k): short(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)): return [short(x) for x in v[:200]] + (["... (%d items)" % len(v)] if len(v) > 200 else [])
    return v

def load_known(pid):
    r = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid: r[m.group(2)] = m.group(3)
    return r

def main(argv, checks):
    pid = argv[1]; tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = Check(pid, tier)
    try:
        checks[pid](c)
        return c.finish()
    except First: return 1
    except build.BuildError as e:
        print("ERROR: build failed\n" + str(e)[-3000:]); return 2
    except Exception:
        traceback.print_exc(); return 2
    finally:
        shutil.rmtree(c.work, ignore_errors=True)
