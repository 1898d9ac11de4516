"""P10, P11: the cache of shared reads, and several threads."""
from vp.check import *
from vp.gen import *
from vp.files import *
from vp.props_files import N, progs
from vp.props_store import queries

def bgeo_of(x):
    """the BGEO bytes of a description with position first"""
    def d(a):
        nm = dec(a["n"]); o = struct.pack(">H", len(nm)) + nm + struct.pack(">Hi", a["c"], {1: 5, 2: 0, 3: 1, 4: 4}[a["t"]])
        if a["t"] == STR: return o + struct.pack(">i", len(a["s"])) + b"".join(struct.pack(">H", len(dec(y))) + dec(y) for y in a["s"])
        return o + b"\0\0\0\0" * a["c"]
    o = b"BgeoV" + struct.pack(">9i", 5, x["n"], 0, 0, 0, len(x["a"]) - 1, 0, 0, len(x["f"]))
    for a in x["a"][1:]: o += d(a)
    for k in range(x["n"]):
        for i in range(len(x["a"])):
            o += b"".join(w32(v, ">") for v in x["d"][i][k])
            if i == 0: o += struct.pack(">f", 1)
    for f in x["f"]: o += d(f)
    for f in x["f"]: o += b"".join(w32(v, ">") for v in f["v"])
    return o + b"\x00\xff"
def version(v):
    return desc([("position", VECTOR, 3, []), ("ver", INT, 1, [])], 2, [[["00000000"] * 3, ["3f800000", "00000000", "3f800000"]], [[v], [v]]])
JUNKS = [b"", b"x", b"\x1f\x8b\x08\x00", b"garbage" * 30]

def finish_model(p):
    """file bytes for the model's contents; observations of what is freed and of what the holders see"""
    r = []; live = []; marks = []
    for e in p:
        x = {k: v for k, v in e.items() if k != "r"}
        if e["op"] == "put": x["hex"] = (b"nothing like it" if e["fmt"] == "JUNK" else bgeo_of(e["x"])).hex()
        r.append(x)
        if e["op"] in ("cached", "read") and e["r"]["ok"]:
            live.append(e["h2"]); marks.append("m%d" % len(marks)); r.append(dict(op="mark", h=e["h2"], m=marks[-1]))
        elif e["op"] == "rel":
            live.remove(e["h"]); r += [dict(op="freed", m=m) for m in marks]; r += [dict(op="dump", h=h) for h in live]
    return r + [dict(op="dump", h=h) for h in live]

def yield_file(g, r, p, v):
    v[0] += 1
    x = desc([("position", VECTOR, 3, []), ("ver", INT, 1, [])], 3, [[[fbits(r.randint(-8, 8)) for _ in range(3)] for _ in range(3)], [[v[0]]] * 3])
    g.put_(p, "BGEO", bgeo_of(x), x)

class World:
    """what a history may do next: which handles exist (a failed read makes none)"""
    def __init__(s, g, r, names): s.g = g; s.r = r; s.names = names; s.good = {}; s.cache = {}; s.kind = {}; s.path = {}; s.m = 0; s.marks = []; s.v = [0]; s.srt = set()
    @staticmethod
    def norm(p): return p[2:] if p.startswith("./") else p
    def file(s, p):
        r = s.r; x = r.random(); q = s.norm(p)
        if x < .7: yield_file(s.g, r, p, s.v); s.good[q] = 1
        elif x < .8: s.g.emit(op="put", path=p, fmt="JUNK", hex=b"junk it is".hex()); s.good[q] = 0
        else: s.g.emit(op="unlink", path=p); s.good[q] = 0
    def cached(s, p):
        ok = s.cache.get(p, 0) > 0 or s.good.get(s.norm(p), 0)
        srt = s.r.random() < .35
        h = s.g.cached_(p, srt, s.r.random() < .6, s.r.choice("ddc"))
        if ok:
            s.cache[p] = s.cache.get(p, 0) + 1; s.kind[h] = "c"; s.path[h] = p
            if srt: s.srt.add(p)
            if s.r.random() < .5: s.mark(h)
    def read(s, p):
        ok = s.good.get(s.norm(p), 0); x = s.r.random() < .7
        h = s.g.read_(p, "d", s.r.random() < .6) if x else s.g.hdr_(p, s.r.random() < .6)
        if ok: s.kind[h] = "r" if x else "h"; s.path[h] = p; s.mark(h)
    def mark(s, h): s.m += 1; m = "m%d" % s.m; s.g.emit(op="mark", h=h, m=m); s.marks.append(m)
    def rel(s):
        if not s.kind: return
        h = s.r.choice(list(s.kind)); s.g.emit(op="rel", h=h)
        if s.kind.pop(h) == "c":
            s.cache[s.path[h]] -= 1
            if not s.cache[s.path[h]]: s.srt.discard(s.path[h])
    def look(s):
        hs = [h for h in s.kind if s.kind[h] != "h"]
        if not hs: return
        h = s.r.choice(hs); s.g.emit(op=s.r.choice(["dump", "touch", "cnt"]), h=h)
        if s.kind[h] == "c" and s.path[h] in s.srt:
            a = [s.r.randint(-40, 0) for _ in range(3)]; b = [s.r.randint(0, 40) for _ in range(3)]
            s.g.emit(op="box", h=h, scale=4, a=a, b=b, pre=[])
            s.g.emit(op="near", h=h, scale=4, q=[s.r.randint(-30, 30) for _ in range(3)], N=s.r.choice([1, 2, 5]), R=s.r.choice([4, 20, 60]))
    def freed(s):
        for m in s.r.sample(s.marks, min(3, len(s.marks))): s.g.emit(op="freed", m=m)

def P10(c):
    # the locking protocol itself
    for th, ops in ((2, 7), (3, 6)) if c.quick else ((2, 10), (3, 8)):
        for lock, rec, want in (("1", "1", True), ("0", "1", False), ("1", "0", False)):
            if not want and th == 3: continue
            rc, out = tlc("CacheAlg.tla", "CacheAlg.cfg", {"THREADS": str(th), "OPS": str(ops), "LOCK": lock, "REC": rec}, c.work, "alg%d%s%s" % (th, lock, rec), heap="6g", workers="8", timeout=max(60, c.left()))
            ok = "No error has been found" in out
            if ok != want: raise MachineryError("CacheAlg %s %s %s\n%s" % (th, lock, rec, out[-2000:]))
            m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct", out)
            if want and m:
                g_, d_ = [int(x.replace(",", "")) for x in m[-1]]
                c.cov["states"] += d_; c.cov["transitions"] += g_
                c.models.append({"module": "CacheAlg", "threads": th, "operations": ops, "distinct_states": d_, "transitions": g_})
    cache_histories(c)
    cache_threads(c)
def cache_histories(c):
    # every short history
    for prof, dq, dt in (("two", 4, 5), ("alias", 4, 5), ("sort", 4, 5), ("deep", 6, 8)):
        ps = c.maximal(c.model(prof, dq if c.quick else dt, module="MCCache", heap="6g"))
        cap = 4000 if c.quick else 40000
        if len(ps) > cap: c.rng.shuffle(ps); ps = ps[:cap]
        c.conform([finish_model(p) for p in ps], "histories of the model MCCache/" + prof)
    def f(g, r):
        names = r.sample(["f.bgeo", "./f.bgeo", "g.bgeo", "g.bgeo.gz", "x.y.bhclassic", "nodir/f.bgeo", "noext", "f.unknown", "h.itbl", "h.atbl"], r.choice([1, 2, 3, 5]))
        w = World(g, r, names)
        for q in names:
            if not q.startswith("nodir") and "." in q[2:] and r.random() < .7 and not q.endswith("unknown"): yield_file(g, r, q, w.v); w.good[w.norm(q)] = 1
        for _ in range(r.choice([8, 20, 50])):
            p = r.choice(names); x = r.random(); plain = not p.startswith("nodir") and p not in ("noext", "f.unknown")
            if x < .35: w.cached(p)
            elif x < .6: w.rel()
            elif x < .7 and plain: w.file(p)
            elif x < .8: w.read(p)
            elif x < .92: w.look()
            else: w.freed()
        while w.kind:
            w.rel()
            if r.random() < .4: w.look()
        for m in w.marks: g.emit(op="freed", m=m)
    c.conform(progs(c, "cache", N(c, 700, 6000), f), "random cached histories")
    # the same, memory being handed out again at once
    exe = c.driver("plain", "driver.cpp", san="")
    c.conform(progs(c, "cachereuse", N(c, 400, 4000), f), "random cached histories, addresses reused", runner=lambda ps, tag: run_driver(exe, ps, c.work, tag, 300))
    # readers of every format through the cache, failures while loading included
    def every(g, r):
        fmt = r.choice(RW); S = g.fset(fmt, r.choice([1, 3, 8])); p = g.path(fmt, fmt != "PRT" and r.random() < .3); g.write_(S, p)
        hs = [g.cached_(p, False, True, "d"), g.cached_(p, r.random() < .2 and not any(a.n == "position" for a in []), True, r.choice("dc"))]
        q = "t%d.%s" % (g.nf, r.choice(ZEXT[fmt]))
        for k in range(6):
            g.emit(op="cut", path=p, path2=q, num=r.randrange(100), den=100, off=0)
            h = g.fresh("c"); g.emit(op="cached", path=q, h2=h, sort=False, verbose=False, obs="c")
            g.emit(op="unlink", path=q); q = "t%d_%d.%s" % (g.nf, k, r.choice(ZEXT[fmt]))
            g.read_(p, "d")
        g.emit(op="mark", h=hs[0], m="m"); g.emit(op="freed", m="m")
        for h in hs: g.emit(op="rel", h=h); g.emit(op="freed", m="m")
        hs = [g.cached_(p, False, True, "d")]
    c.conform(progs(c, "cachefmt", N(c, 200, 1500), every), "the cache over every format, truncated files in between")

# ---------------------------------------------------------------- several threads
def run_threads(exe, main, progs_, work, tag, own, timeout=200, env=None, after=()):
    """main: events of the main thread; progs_: events of each thread. Returns (streams, failure): stream k holds
    (inv, ret, event with result)."""
    sc = os.path.join(work, tag + ".cmd"); outf = os.path.join(work, tag + ".out"); err = os.path.join(work, tag + ".err")
    with open(sc, "w") as f:
        for k, p in enumerate([main] + progs_):
            if k: f.write("thread\n")
            for e in p: f.write(line(e) + "\n")
        f.write("after\n")
        for e in after: f.write(line(e) + "\n")
    main = main + list(after)
    why = None
    with open(err, "w") as ef:
        pr = subprocess.Popen([exe, "-t", sc, outf, "own" if own else "shared"], stdout=subprocess.DEVNULL, stderr=ef, env=env or TENV, cwd=work)
        try: rc = pr.wait(timeout=timeout)
        except subprocess.TimeoutExpired: pr.kill(); pr.wait(); rc = -9; why = "hang"
    note = open(err, errors="replace").read()[-6000:]
    if rc == -14: why = "hang"
    elif rc != 0 and not why: why = "crash (exit %d)" % rc
    streams = []
    for k, p in enumerate([main] + progs_):
        f = "%s.%d" % (outf, k); ls = open(f, errors="replace").read().split("\n") if os.path.exists(f) else []
        ev = []
        for e, l in zip(p, ls):
            m = re.match(r"(\d+) (\d+) (.*)$", l)
            if not m: break
            x = dict(e)
            try: x["r"] = json.loads(m.group(3))
            except ValueError: break
            if isinstance(x["r"], dict) and "need" in x["r"]: x["need"] = x["r"]["need"]
            if isinstance(x["r"], dict) and "exception" in x["r"]: x["bad"] = "exception " + x["r"]["exception"]
            ev.append((int(m.group(1)), int(m.group(2)), x))
        streams.append(ev)
        if os.path.exists(f): os.remove(f)
    for f in (sc, err):
        if os.path.exists(f): os.remove(f)
    shutil.rmtree(outf + ".d", ignore_errors=True)
    if why: why += "\n" + note
    elif any(len(s) < len(p) and not any("bad" in x[2] or "need" in x[2] for x in s) for s, p in zip(streams, [main] + progs_)): why = "a thread did not finish\n" + note
    return streams, why
TENV = dict(ENV, TSAN_OPTIONS="halt_on_error=1:exitcode=66:second_deadlock_stack=1:report_signal_unsafe=0")

def tsan(c):
    """the driver under the thread sanitizer, None where that cannot run"""
    try:
        exe = c.driver("tsan", "driver.cpp", san="thread")
        s, why = run_threads(exe, [], [[]], c.work, "probe", True)
        if why: c.extra["tsan"] = "not usable here: " + why[-300:]; return None
        return exe
    except build.BuildError as e: raise
def par(c, jobs, fn, width=3):
    with cf.ThreadPoolExecutor(width) as ex: return list(ex.map(fn, jobs))

def cache_threads(c):
    exes = [("address", c.driver()), ("thread", tsan(c))]
    jobs = []
    for i in range(N(c, 150, 1500)):
        r = random.Random("P10t/%d/%d" % (c.seed, i)); T = r.choice([2, 2, 3, 4]); names = ["f.bgeo", "g.bgeo", "./f.bgeo"][:r.choice([1, 1, 2, 3])]
        main = [dict(op="put", path=p, fmt="BGEO", x=version(k + 1), hex=bgeo_of(version(k + 1)).hex()) for k, p in enumerate(names[:2]) if r.random() < .8]
        vers = [10]; th = []
        for t in range(T):
            p = []; cnt = [0]; held = []; ptr = 0
            for _ in range(r.choice([6, 12, 25]) if T < 4 else r.choice([5, 10])):
                x = r.random(); f = r.choice(names)
                if x < .45 or not held and x < .8:
                    h = "t%dc%d" % (t, cnt[0]); cnt[0] += 1; held.append(h)
                    p.append(dict(op="cached", path=f, h2=h, sort=r.random() < .3, verbose=False, obs="d")); p.append(dict(op="ptr", h=h))
                elif x < .85 and held:
                    h = held.pop(r.randrange(len(held))); p.append(dict(op="rel", h=h))
                elif x < .93 and held: p.append(dict(op="dump", h=r.choice(held)))
                elif x < .97:
                    vers[0] += 1; y = version(vers[0]); junk = r.random() < .3
                    p.append(dict(op="replace", path=f, ver=0 if junk else vers[0], hex=(r.choice(JUNKS) if junk else bgeo_of(y)).hex()))
                else: p.append(dict(op="unlink", path=f))
            for h in held: p.append(dict(op="rel", h=h))
            th.append(p)
        after = []
        for k, f in enumerate(names):
            if f.startswith("./"): continue
            vers[0] += 1; after.append(dict(op="replace", path=f, ver=vers[0], hex=bgeo_of(version(vers[0])).hex()))
        for k, f in enumerate(names):
            h = "e%d" % k; after += [dict(op="cached", path=f, h2=h, sort=False, verbose=False, obs="d"), dict(op="ptr", h=h), dict(op="rel", h=h)]
        jobs.append((i, main, th, after))
    if c.left() < 100 and c.quick: jobs = jobs[:60]
    def one(j):
        i, main, th, after = j; out = []
        for nm, exe in exes:
            if exe: out.append((nm, i, main, th) + run_threads(exe, main, th, c.work, "ct%d%s" % (i, nm[0]), False, after=after))
        return out
    res = [x for y in par(c, jobs, one) for x in y]
    hist = []; owner = []
    for nm, i, main, th, streams, why in res:
        if len(c.violations) >= 3: break
        if why: c.violate("threads sharing the cache (%s sanitizer)" % nm, {"why": why, "main": main, "threads": th}); continue
        h = cache_history(streams)
        if isinstance(h, str): c.violate("threads sharing the cache", {"why": h, "main": main, "threads": th}); continue
        hist.append(h); owner.append((nm, i, main, th, streams))
    acc = linear(c, hist)
    c.cov["traces_validated_against_impl"] += len(hist)
    c.extra["threads"] = {"histories": len(hist), "events": sum(len(t) for h in hist for t in h["th"]), "accepted": len(acc)}
    if hist and len(c.cov["samples"]) < 4: c.cov["samples"].append({"what": "history of threads sharing the cache", "threads": [t[:6] for t in hist[0]["th"]]})
    for k in range(len(hist)):
        if k + 1 not in acc and len(c.violations) < 3:
            nm, i, main, th, streams = owner[k]
            c.violate("threads sharing the cache: no order of the operations explains what they returned", {"why": "not linearizable", "main": main, "threads": th, "observed": hist[k]})

def cache_history(streams):
    """the events of spec/CacheTrace.tla"""
    th = []; ok = {}
    for k, s in enumerate(streams):
        ev = []; n = 0
        for a, b, e in s:
            o = e["op"]; r = e["r"]
            if "bad" in e: return e["bad"]
            if o in ("put", "replace"):
                ev.append(dict(op="file", path=World.norm(e["path"]), ver=e.get("ver", e.get("x", {"d": [0, [[0]]]})["d"][1][0][0] if "x" in e else 0), inv=a, ret=b))
            elif o == "unlink": ev.append(dict(op="file", path=World.norm(e["path"]), ver=0, inv=a, ret=b))
            elif o == "cached":
                if not r["ok"]: ev.append(dict(op="cached", path=e["path"], file=World.norm(e["path"]), h=e["h2"], ok=False, ver=0, ptr="0", inv=a, ret=b)); ok[e["h2"]] = False
                else: ok[e["h2"]] = True; ev.append(dict(op="cached", path=e["path"], file=World.norm(e["path"]), h=e["h2"], ok=True, ver=ver_of(r["x"]), ptr="?", inv=a, ret=b))
            elif "need" in e:
                if ok.get(e.get("h")): return "lost handle"
            elif o == "ptr": ev[-1]["ptr"] = r
            elif o == "dump": ev.append(dict(op="look", h=e["h"], ver=ver_of(r), inv=a, ret=b))
            elif o == "rel": ev.append(dict(op="rel", h=e["h"], inv=a, ret=b))
        th.append(ev)
    return {"th": th}
def ver_of(x):
    try: v = x["d"][1][0][0]
    except (IndexError, TypeError, KeyError): return -1
    return v if {k: x[k] for k in ("n", "a", "d", "f")} == version(v) else -1
def linear(c, hist):
    if not hist: return set()
    # aliases name different cache entries of the same file: the file events use the plain name
    parts = [list(range(k, len(hist), 8)) for k in range(8)]; acc = set()
    def one(k):
        idx = parts[k]
        if not idx: return []
        path = os.path.join(c.work, "lin%d.ndjson" % k)
        with open(path, "w") as f:
            for i in idx: f.write(json.dumps(hist[i]) + "\n")
        rc, out = tlc("CacheTrace.tla", "CacheTrace.cfg", {"TRACE": path}, c.work, "lin%d" % k, heap="3g", timeout=max(60, c.left()))
        if "Model checking completed" not in out: raise MachineryError("CacheTrace: " + out[-2500:])
        m = re.search(r"(\d+) states generated, (\d+) distinct", out); c.cov["states"] += int(m.group(2)); c.cov["transitions"] += int(m.group(1))
        return [idx[int(x) - 1] + 1 for x in re.findall(r'<<"ACCEPT", (\d+)>>', out)]
    for r in par(c, range(8), one, 8): acc |= set(r)
    return acc

def small_set(g, r, n, scale=4):
    """sortable and clusterable"""
    S = g.new("simple"); g.add(S, "position", VECTOR, 3); g.add(S, "id", INT, 1)
    for nm, t, cc in r.sample([("mass", FLOAT, 2), ("clan", STR, 1), ("vel", VECTOR, 3)], r.randint(0, 3)): g.add(S, nm, t, cc)
    g.grow(S, n); at = {a.n: a for a in S.A}
    for k in range(n):
        g.emit(op="set", h=S.h, k=at["position"].ks[0], i=k, v=[fbits(r.randint(-40, 40) / scale) for _ in range(3)]); at["position"].w.add(k)
        g.emit(op="set", h=S.h, k=at["id"].ks[0], i=k, v=[k * 7 % 101]); at["id"].w.add(k)
    small = g.small; g.small = True; g.complete(S); g.small = small
    return S

def thread_prog(r, shared, first, n):
    """what one thread does; shared: the main thread's set"""
    g = FGen(r, kinds=("simple", "inter")); g.cnt = 1000
    def files():
        fmt = r.choice(RW) if r.random() < .9 else "RIB"; S = g.fset(fmt, r.choice([0, 1, 3, 9])); p = g.path(fmt, fmt != "PRT" and r.random() < .4, stem="w"); g.write_(S, p)
        if fmt == "RIB": return
        for _ in range(r.randint(1, 3)):
            x = r.random()
            if x < .4: g.read_(p, r.choice("ddc"))
            elif x < .7: g.hdr_(p)
            else:
                h = g.cached_(p, False)
                if r.random() < .7: g.emit(op="rel", h=h)
        g.dump(S)
    def given():
        fmt, mk = r.choice([("BGEO", bgeo), ("PRT", prt), ("BIN", binf), ("PTC", ptc), ("PDC", pdc), ("PDA", pda)])
        data, x = mk(r); p = g.path(fmt); g.put_(p, fmt, data, x); g.read_(p); g.hdr_(p)
    def text():
        if r.random() < .5: lines, data = pts(r); p = "p%d.pts" % g.cnt; g.emit(op="pts", path=p, lines=lines, hex=data.hex())
        else: ch, m, data = mc(r); p = "m%d.mc" % g.cnt; g.emit(op="mc", path=p, ch=ch, n=m, hex=data.hex())
        g.read_(p)
    def fail():
        p = r.choice(["nofile.bgeo", "x.unknown", "noext", "nofile.prt.gz", "nofile.geo", "nofile.mc", "nodir/x.pda"])
        [g.read_, g.hdr_, g.cached_][r.randrange(3)](p, verbose=r.random() < .5)
    def build_():
        S = g.fset("BGEO", r.choice([0, 2, 11])); T = g.clone(S); g.dump(T)
        if r.random() < .5: B = g.new("simple"); g.add(B, "position", VECTOR, 3); g.emit(op="addP", h=B.h); g.emit(op="merge", h=B.h, d=S.h, ids=[]); g.emit(op="cnt", h=B.h)
        g.strop_read(S); g.iterate(S); g.dump(S)
    def geom():
        S = small_set(g, r, r.choice([1, 4, 9, 20]))
        if r.random() < .5:
            g.emit(op="cluster", h=S.h, h2=g.fresh("cl"), nn=r.choice([1, 3, 8]), R=r.choice([8, 20, 40]), ins=r.choice([0, 25, 50]), conn=r.choice([1, 2, 3]), den=r.choice([4, 7]))
        else: g.emit(op="sort", h=S.h)
        queries(g, S, r, [], 4, 4)
    def look():
        S = shared; x = r.randrange(6)
        if x == 0: g.dump(S)
        elif x == 1: g.iterate(S) if False else g.emit(op="get", h=S.h, k=S.A[0].ks[0], i=r.randrange(S.n), T=letter(S.A[0].t), c=S.A[0].c)
        elif x == 2: queries(g, S, r, [], 4, 3)
        elif x == 3: g.emit(op="cnt", h=S.h)
        elif x == 4: g.emit(op="iter", h=S.h, mode=r.choice("cC"), start=-1, ks=[S.A[1].ks[0]], Ts=[letter(S.A[1].t)], cs=[S.A[1].c], obs=[0, S.n - 1])
        else:
            for a in S.A:
                if a.t == STR: g.emit(op="lku", h=S.h, k=a.ks[0], s=r.choice(STRS)); g.emit(op="strs", h=S.h, k=a.ks[0])
            g.emit(op="mul", h=S.h, k=S.A[1].ks[0], T=letter(S.A[1].t), c=S.A[1].c, srt=0, idx=[r.randrange(S.n) for _ in range(4)])
    acts = [files] * 5 + [given] * 2 + [text, fail, build_, geom] + ([look] * 4 if shared else [])
    {"read": fail, "write": files, "given": given, "any": r.choice(acts)}[first]()
    for _ in range(n): r.choice(acts)()
    return g.p

def P11(c):
    exes = [("address", c.driver()), ("thread", tsan(c))]; jobs = []
    for i in range(N(c, 60, 700)):
        r = random.Random("P11/%d/%d" % (c.seed, i)); T = r.choice([2, 3, 4, 6, 8]); shared = None; main = []
        if r.random() < .5:
            g = FGen(r, kinds=("simple",)); shared = small_set(g, r, r.choice([3, 12, 40])); g.emit(op="sort", h=shared.h); main = g.p
        first = r.choice(["read", "write", "given", "any"])
        jobs.append((i, main, [thread_prog(random.Random("P11/%d/%d/%d" % (c.seed, i, t)), shared, first, r.choice([1, 3, 6])) for t in range(T)]))
    runs = []; owner = []
    def one(j):
        out = []
        for nm, exe in exes:
            if exe and (nm == "thread" or j[0] % 2 == 0 or not exes[1][1]): out.append((nm, j) + run_threads(exe, j[1], j[2], c.work, "th%d%s" % (j[0], nm[0]), True))
        return out
    for rs in par(c, jobs, one):
        for nm, j, streams, why in rs:
            if len(c.violations) >= 3: continue
            if why and why.startswith("hang"):                 # not on a busy machine alone
                streams, why = run_threads(dict(exes)[nm], j[1], j[2], c.work, "again", True)
            if why: c.violate("threads with their own sets and files (%s sanitizer)" % nm, {"why": why, "main": j[1], "threads": j[2]}); continue
            pre = [e for _, _, e in streams[0]]
            for s in streams[1:]:
                runs.append([{"op": "reset", "r": 0}] + pre + [e for _, _, e in s]); owner.append((nm, j))
    if len(c.violations) >= 3: return
    bad, st = judge(runs, c.work, "t")
    c.cov["traces_validated_against_impl"] += len(runs); c.cov["states"] += st["states"]; c.cov["transitions"] += st["events"]
    c.extra["threads"] = {"processes": len(jobs), "threads": len(runs), "events": st["events"], "rejected": len(bad)}
    if runs: c.cov["samples"].append({"what": "one thread of several", "events": [{k: v for k, v in e.items() if k != "hex"} for e in runs[0][:10]]})
    for i, j, why in bad[:3]:
        c.violate("a thread did not obtain the result of running alone", {"why": why, "failing_event": runs[i][j], "program": [{k: v for k, v in e.items() if k != "r"} for e in runs[i][1:]], "threads": owner[i][1][2]})

CHECKS = {"P10": P10, "P11": P11}
