"""Shared machinery: running command programs in the driver, judging the recorded
executions with the TLA+ trace specification, and reporting."""
import os, sys, json, subprocess, shutil, struct, time, tempfile, re, concurrent.futures as cf, hashlib, random
from vp import build
VERIF = build.VERIF
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1"))

class MachineryError(Exception): pass

# ---------------------------------------------------------------- encoding
SAFE = set(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-/")
def enc(s):
    b = s.encode("utf-8", "surrogateescape") if isinstance(s, str) else bytes(s)
    r = "".join(chr(c) if c in SAFE else "%%%02x" % c for c in b)
    return r or "%"
def dec(s):
    if s == "%": return b""
    return re.sub(rb"%([0-9a-f]{2})", lambda m: bytes([int(m.group(1), 16)]), s.encode())
def fbits(x): return "%08x" % struct.unpack("<I", struct.pack("<f", x))[0]
def bitsf(h): return struct.unpack("<f", struct.pack("<I", int(h, 16)))[0]
def comp(v): return "i%d" % v if isinstance(v, int) else "f" + v
NONE, VECTOR, FLOAT, INT, STR = range(5)
def letter(t): return "i" if t in (INT, STR) else "f"

# ---------------------------------------------------------------- commands
def pairs(m): return " ".join([str(len(m))] + ["%s %s" % (a, b) for a, b in m])
def line(e):
    """The driver command of an event."""
    o = e["op"]; g = e.get
    if o in ("reset", "mem"): return o
    if o == "new": return "new %s %s" % (e["h2"], e["kind"])
    if o in ("rel", "cnt", "addP", "sort", "dump", "cols", "hdrs", "touch", "print", "pre"): return "%s %s" % (o, e["h"])
    if o in ("addA", "addF"): return "%s %s %s %s %d %d" % (o, e["h"], e["k"], e["n"], e["t"], e["c"])
    if o in ("nameA", "nameF"): return "%s %s %s %s" % (o, e["h"], e["k"], e["n"])
    if o in ("idxA", "idxF"): return "%s %s %s %d" % (o, e["h"], e["k"], e["i"])
    if o == "addPs": return "addPs %s %d" % (e["h"], e["c"])
    if o == "set": return "set %s %s %d %s" % (e["h"], e["k"], e["i"], " ".join(map(comp, e["v"])))
    if o == "setc": return "setc %s %s %d %d %s" % (e["h"], e["k"], e["i"], e["j"], comp(e["v"]))
    if o == "get": return "get %s %s %d %s %d" % (e["h"], e["k"], e["i"], e["T"], e["c"])
    if o == "setF": return "setF %s %s %s" % (e["h"], e["k"], " ".join(map(comp, e["v"])))
    if o == "getF": return "getF %s %s %s %d" % (e["h"], e["k"], e["T"], e["c"])
    if o in ("reg", "regF", "lku", "lkuF"): return "%s %s %s %s" % (o, e["h"], e["k"], e["s"])
    if o in ("ren", "renF"): return "%s %s %s %d %s" % (o, e["h"], e["k"], e["tok"], e["s"])
    if o in ("strs", "strsF"): return "%s %s %s" % (o, e["h"], e["k"])
    if o == "iter": return "iter %s %s %d %d %s %d %s" % (e["h"], e["mode"], e["start"], len(e["ks"]),
                     " ".join("%s %s %d" % x for x in zip(e["ks"], e["Ts"], e["cs"])), len(e["obs"]), " ".join(map(str, e["obs"])))
    if o == "iterw": return "iterw %s %s %d %d %d %s" % (e["h"], e["k"], e["c"], e["start"], len(e["w"]),
                     " ".join("%d %s" % (i, " ".join(map(comp, v))) for i, v in e["w"]))
    if o in ("mul", "asf"): return "%s %s %s %s %d %d %d %s" % (o, e["h"], e["k"], e["T"], e["c"], e["srt"], len(e["idx"]), " ".join(map(str, e["idx"])))
    if o == "clone": return "clone %s %s %d %s" % (e["h"], e["h2"], 1 if e["p"] else 0, pairs(e["m"]))
    if o == "schema": return "schema %s %s %s" % (e["h"], e["h2"], pairs(e["m"]))
    if o == "merge": return "merge %s %s %d %s" % (e["h"], e["d"], len(e["ids"]), " ".join(e["ids"]))
    if o == "box": return "box %s %d %s %s %d %s" % (e["h"], e["scale"], " ".join(map(str, e["a"])), " ".join(map(str, e["b"])), len(e["pre"]), " ".join(map(str, e["pre"])))
    if o == "near": return "near %s %d %s %d %d" % (e["h"], e["scale"], " ".join(map(str, e["q"])), e["N"], e["R"])
    if o == "cluster": return "cluster %s %s %d %s %s %d %s" % (e["h"], e["h2"], e["nn"], "%r" % (e["R"] / 4), "%d" % e["ins"], e["conn"], "%r" % (e["den"] / 4))
    if o == "dumps": return "dumps %s %s" % (e["h"], e["scale"])
    if o == "fill": return "fill %s %d %s" % (e["h"], e["seed"], e["mode"])
    if o == "write": return "write %s %s %d %d" % (e["h"], e["path"], 1 if e["force"] else 0, 1 if e["verbose"] else 0)
    if o == "read": return "read %s %s %d %s" % (e["path"], e["h2"], 1 if e["verbose"] else 0, e["obs"])
    if o == "hdr": return "hdr %s %s %d" % (e["path"], e["h2"], 1 if e["verbose"] else 0)
    if o == "cached": return "cached %s %s %d %d %s" % (e["path"], e["h2"], 1 if e["sort"] else 0, 1 if e["verbose"] else 0, e["obs"])
    if o in ("put", "pts", "mc"): return "put %s %s" % (e["path"], e["hex"] or "-")
    if o == "cut": return "cut %s %s %d %d %d" % (e["path"], e["path2"], e["num"], e["den"], e["off"])
    if o == "gzcut": return "gzcut %s %s %d %d %d %d" % (e["path"], e["path2"], e["num"], e["den"], e["off"], e["level"])
    if o == "gz": return "gz %s %s %d %d" % (e["path"], e["path2"], e["level"], e["flags"])
    if o == "cp": return "cp %s %s" % (e["path"], e["path2"])
    if o in ("fstat", "mkdir", "unlink", "raw", "rib"): return "%s %s" % (o, e["path"])
    if o == "mark": return "mark %s %s" % (e["h"], e["m"])
    if o == "replace": return "replace %s %s" % (e["path"], e["hex"] or "-")
    if o == "ptr": return "ptr " + e["h"]
    if o == "freed": return "freed %s" % e["m"]
    if o == "zopenw": return "zopenw %s %s" % (e["path"], e["w"])
    if o == "zopenr": return "zopenr %s %s" % (e["path"], e["rd"])
    if o == "zadd": return "zadd %s %s" % (e["w"], e["n"])
    if o == "zput": return "zput %s %s %s" % (e["w"], e["c"] or "-", e["how"])
    if o in ("zend", "zclosew"): return "%s %s" % (o, e["w"])
    if o in ("zlist", "zcloser"): return "%s %s" % (o, e["rd"])
    if o == "zget": return "zget %s %s %s" % (e["rd"], e["n"], e["sm"])
    if o == "zread": return "zread %s %d %s" % (e["sm"], e["k"], e["how"])
    if o == "zdone": return "zdone " + e["sm"]
    if o == "zstd": return "zstd " + e["path"]
    if o == "zgiven": return "put %s %s" % (e["path"], e["hex"] or "-")
    if o == "pyref": return "pyref " + e["h"]
    if o == "pyaddPs": return "addPs %s %d" % (e["h"], e["c"])
    if o == "pyset": return "pyset %s %s %d %s%s" % (e["h"], e["k"], e["i"], e["seq"], ",".join(x["w"] for x in e["v"]))
    if o == "pysetF": return "pysetF %s %s %s%s" % (e["h"], e["k"], e["seq"], ",".join(x["w"] for x in e["v"]))
    if o == "pyget": return "pyget %s %s %d" % (e["h"], e["k"], e["i"])
    if o == "pyquery": return "pyquery %s %s %s%s %s%s" % (e["h"], e["w"], e["s1"], ",".join(x["w"] for x in e["v1"]), e["s2"], ",".join(x["w"] for x in e["v2"]))
    if o == "pynear": return "pynear %s %d %s %d %d" % (e["h"], e["scale"], " ".join(map(str, e["q"])), e["N"], e["R"])
    if o == "pymisc": return "pymisc %s %s %s" % (e["h"], e["w"], e["k"])
    if o == "pytname": return "pytname %d" % e["t"]
    if o == "pyattr": return "pyattr %s %s" % (e["w"], e["k"])
    if o == "pyres": return "pyres %s %s %s %s %d" % (e["m"], e["h"], e["w"], e["k"], e.get("i", 0))
    if o == "json": return "json %s %s %s" % (e["h"], e["h2"], e["how"])
    if o == "pj": return "pj %s %s %s" % (e["path"], e["path2"], ",".join(e["flags"] + (["-c"] if e["c"] else [])) or ",")
    if o == "conv": return "conv %s %s" % (e["path"], e["path2"])
    if o == "info": return "info %s %s" % (e["path"], " ".join(e["flags"] + [str(i) for i in e["idx"]]))
    if o == "attr": return "attr %s %s %s" % (e["path"], e["n"], e["max"] if e["max"] >= 0 else "")
    if o == "pyagain": return "pyagain " + e["m"]
    if o == "tname": return "tname %d" % e["t"]
    raise MachineryError("no command for " + o)

# ---------------------------------------------------------------- running
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0",
           LC_ALL="C")
POST = {}      # op -> function of the event and what the driver gave, for observations finished here
def run_driver(exe, programs, work, tag, timeout=300, env=None):
    """Runs each program (list of events); returns the events with their results.
    A crash or hang is recorded on the event during which it happened and the run
    continues with the next program."""
    res = []; todo = list(range(len(programs))); gen = 0; slow = 0
    out_events = [None] * len(programs)
    while todo:
        gen += 1
        script = os.path.join(work, "%s.%d.cmd" % (tag, gen)); outf = os.path.join(work, "%s.%d.out" % (tag, gen))
        with open(script, "w") as f:
            for p in todo:
                f.write("reset\n")
                for e in programs[p]:
                    if e["op"] != "pyhook": f.write(line(e) + "\n")
        err = os.path.join(work, "%s.%d.err" % (tag, gen))
        t0 = time.time(); hang = False
        with open(err, "w") as ef:
            p_ = subprocess.Popen([exe, script, outf], stdout=subprocess.DEVNULL, stderr=ef, env=env or ENV, cwd=work)
            try: rc = p_.wait(timeout=timeout)
            except subprocess.TimeoutExpired: p_.kill(); p_.wait(); rc = -9; hang = True
        lines = open(outf, errors="replace").read().split("\n") if os.path.exists(outf) else []
        if lines and lines[-1] == "": lines.pop()
        complete = bool(lines) and lines[-1] == '"end"'
        if complete: lines.pop()
        pos = 0; crashed = None
        for n, p in enumerate(todo):
            evs = [{"op": "reset", "r": 0}]
            want = 1 + len(programs[p]); have = lines[pos:pos + want]; pos += want
            for j, e in enumerate(programs[p]):
                if j + 1 < len(have):
                    ev = dict(e)
                    try: r = json.loads(have[j + 1])
                    except ValueError: ev["bad"] = "garbled"; evs.append(ev); break
                    if isinstance(r, dict) and "need" in r: ev["need"] = r["need"]
                    if isinstance(r, dict) and "exception" in r: ev["bad"] = "exception " + r["exception"]
                    if e["op"] in POST and isinstance(r, dict): r = POST[e["op"]](ev, r)
                    ev["r"] = r; evs.append(ev)
                    if "need" in ev or "bad" in ev: break
                else:
                    ev = dict(e); ev["bad"] = "hang" if hang else "crash"; ev["note"] = open(err, errors="replace").read()[-3000:] ; evs.append(ev); crashed = n; break
            out_events[p] = evs
            if crashed is not None: break
        if crashed is None:
            if not complete and rc != 0:
                # crash while releasing at the very end
                out_events[todo[-1]].append({"op": "reset", "bad": "crash at exit", "note": open(err, errors="replace").read()[-3000:], "r": 0})
            todo = []
        else:
            todo = todo[crashed + 1:]
        slow += hang or rc in (-14, 142)          # no answer within the driver's alarm
        if gen > 40 or slow > 1: break
    for p in range(len(programs)):
        if out_events[p] is None: out_events[p] = []
    for f in os.listdir(work):
        if f.startswith(tag + "."):
            if f.endswith((".cmd", ".out", ".err")): os.remove(os.path.join(work, f))
            elif f.endswith(".d"): shutil.rmtree(os.path.join(work, f), ignore_errors=True)
    return out_events

# ---------------------------------------------------------------- judging
def floats_in(x, acc):
    if isinstance(x, str):
        if len(x) == 8: acc.add(x)
    elif isinstance(x, (list, tuple)):
        for y in x: floats_in(y, acc)
    elif isinstance(x, dict):
        for y in x.values(): floats_in(y, acc)
def ints_in(x, acc):
    if isinstance(x, bool): return
    if isinstance(x, int): acc.add(x)
    elif isinstance(x, (list, tuple)):
        for y in x: ints_in(y, acc)
    elif isinstance(x, dict):
        for y in x.values(): ints_in(y, acc)
HEX = re.compile(r"^[0-9a-f]{8}$")
def tables(events, scale):
    acc = set()
    for e in events:
        for k in ("v", "w", "r", "lines", "x", "ch"):
            if k in e: floats_in(e[k], acc)
    d = {}; g6 = {}
    for h in acc:
        if not HEX.match(h): continue
        v = bitsf(h)
        try: s = v * scale
        except OverflowError: s = 1e300
        d[h] = int(s) if (s == s and abs(s) < 1e9 and s == int(s)) else 999999999
        if v == v and abs(v) != float("inf"):
            try: g6[h] = fbits(float("%g" % v))
            except OverflowError: g6[h] = h
        else: g6[h] = h
    nrm = {}; d255 = {}; i2f = {}
    for h in g6:
        v = bitsf(h); nrm[h] = int(round(v * 8192)) if abs(v) <= 2 else 99999
    for e in events:
        if "lines" in e:
            for l in e["lines"]:
                for x in l:
                    try: d255[x["f"]] = fbits(bitsf(x["f"]) / 255)
                    except OverflowError: d255[x["f"]] = "none"
    if any("pdc" in e["path"] for e in events if "path" in e) or any(e["op"] in ("pyset", "pysetF") for e in events):
        ints = set()
        for e in events:
            for k in ("v", "w", "r", "x"):
                if k in e: ints_in(e[k], ints)
        for i in ints: i2f[str(i)] = fbits(float(i))
    d["none"] = 0; g6["none"] = "none"; nrm["none"] = 0; d255["none"] = "none"; i2f["none"] = "none"
    return {"op": "table", "dec": d, "g6": g6, "nrm": nrm, "d255": d255, "i2f": i2f}

def tlc(module, cfg, env, work, tag, heap="2g", timeout=800, args=(), workers="1"):
    md = os.path.join(work, "md_" + tag)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m", "-Dtlc2.tool.impl.Tool.probabilistic=false", "-Djava.io.tmpdir=" + work, "-cp", JAR, "tlc2.TLC",
           "-workers", workers, "-metadir", md, "-config", cfg, "-noGenerateSpecTE", *args, module]
    p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    shutil.rmtree(md, ignore_errors=True)
    return p.returncode, p.stdout

def _judge_chunk(args):
    runs, work, tag, scale, module = args     # runs: list of event lists
    events = [e for r in runs for e in r]
    path = os.path.join(work, tag + ".ndjson")
    owner = {}; ln = 1
    with open(path, "w") as f:
        f.write(json.dumps(tables(events, scale)) + "\n")
        for i, r in enumerate(runs):
            for j, e in enumerate(r):
                ln += 1; owner[ln] = (i, j)
                f.write(json.dumps({k: v for k, v in e.items() if k not in ("note", "hex")}) + "\n")
    rc, out = tlc(module + ".tla", module + ".cfg", {"TRACE": path}, work, tag)
    bad = {}; pre = {}
    for m in re.finditer(r'<<"(BAD|PRE)", (\d+)>>', out):
        i, j = owner[int(m.group(2))]
        (bad if m.group(1) == "BAD" else pre).setdefault(i, j)
    done = re.search(r'<<"DONE", (\d+), (\d+)>>', out)
    stats = {"states": int(done.group(1)) if done else 0}
    err = None
    if not done:
        m = re.findall(r"/\\ l = (\d+)", out)
        err = (out[-4000:], owner.get(int(m[-1])) if m else None)
    os.remove(path)
    return bad, pre, stats, err

def judge(runs, work, tag="j", scale=4, module="Trace", chunks=8):
    """runs: list of event lists (each starting with reset). Returns
    (list of (run index, event index, why)), stats)."""
    order = sorted(range(len(runs)), key=lambda i: -len(runs[i]))
    parts = [[] for _ in range(min(chunks, max(1, len(runs))))]; load = [0] * len(parts)
    for i in order:
        k = load.index(min(load)); parts[k].append(i); load[k] += len(runs[i]) + 1
    fails = []; stats = {"states": 0, "events": sum(len(r) for r in runs), "runs": len(runs)}
    def one(k):
        idx = list(parts[k]); out = []; st = 0; rnd = 0
        while idx:
            rnd += 1
            bad, pre, s, err = _judge_chunk(([runs[i] for i in idx], work, "%s%d_%d" % (tag, k, rnd), scale, module))
            st += s["states"]
            for i, j in pre.items(): raise MachineryError("event outside the contract: %s" % json.dumps(runs[idx[i]][j])[:600] + "\nprogram: " + json.dumps([{a: b for a, b in e.items() if a != "r"} for e in runs[idx[i]]])[:3000])
            for i, j in bad.items(): out.append((idx[i], j, "not allowed by the specification"))
            if err is None: break
            if err[1] is None: raise MachineryError("TLC: " + err[0])
            i, j = err[1]; out.append((idx[i], j, "not evaluable by the specification: " + err[0][:1500]))
            idx = idx[i + 1:]
            if rnd > 6: break
        return out, st
    with cf.ThreadPoolExecutor(len(parts)) as ex:
        for out, st in ex.map(one, range(len(parts))): fails += out; stats["states"] += st
    seen = {}
    for i, j, w in fails: seen.setdefault(i, (i, j, w))
    return sorted(seen.values()), stats
