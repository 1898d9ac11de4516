"""P22: the Python binding."""
from vp.check import *
from vp.files import *
from vp import props_store as PS, props_cluster as PC, props_threads as PT, props_files as PF
import random

def python(c, san="address"):
    """A program that runs a script through the Python module of the working tree."""
    if "py" not in c.exes:
        d, env = build.build_python(os.path.join(c.work, "b_py"), san)
        exe = os.path.join(c.work, "pydriver.sh")
        with open(exe, "w") as f: f.write("#!/bin/sh\n%s\nexec /usr/bin/python3 %s \"$@\"\n" % ("\n".join("export %s='%s'" % x for x in env.items()), os.path.join(VERIF, "harness", "pydriver.py")))
        os.chmod(exe, 0o755); c.exes["py"] = exe
    return c.exes["py"]

def quiet(h):
    """Python's floats are wider: a signalling NaN does not survive the way there"""
    if isinstance(h, str) and HEX.match(h):
        u = int(h, 16)
        if (u & 0x7f800000) == 0x7f800000 and u & 0x7fffff: return "%08x" % (u | 0x400000)
    return h
SKIP = {"iter", "iterw", "mul", "asf", "touch", "cols", "fill", "setc", "hdrs", "raw", "rib", "gz", "ptr", "replace"}
def to_py(p):
    """the same program for Python, as far as there is a way to say it"""
    r = []
    for e in p:
        o = e["op"]
        if o in SKIP: continue
        e = {k: v for k, v in e.items() if k != "r"}
        if o == "new" and e["kind"] != "simple": e["kind"] = "simple"
        elif o == "get": e = dict(op="pyget", h=e["h"], k=e["k"], i=e["i"])
        elif o == "addPs": e["op"] = "pyaddPs"
        elif o == "near": e["op"] = "pynear"
        elif o == "box": e["pre"] = []
        elif o == "tname": e["op"] = "pytname"
        elif o in ("clone", "schema"): e["m"] = [x for x in e["m"] if x[0] != "%"]     # an empty key stands for none
        elif o in ("set", "setF"): e["v"] = [quiet(x) for x in e["v"]]
        elif o == "cached": e["verbose"] = True; e["obs"] = "d"
        elif o == "read": e["obs"] = "d"
        r.append(e)
    return r

def item(r, fit, a):
    """a component: one that fits attribute type a (or any)"""
    k = r.random()
    if not fit and r.random() < .6:
        w = r.choice(["n", "sabc", "s", "babc", "l", "o", "s1", "s1.5"]); return {"k": w[0] if w[0] in "nsblo" else "o", "x": 0, "w": w}
    if (a in (INT, STR)) == (fit or k < .5) or k < .3:
        v = r.choice(INTS + [16777217, -16777219, 2147483583, 33554435]) if r.random() < .7 else r.randint(-2**31, 2**31 - 1)
        return {"k": "i", "x": v, "w": "i%d" % v}
    if r.random() < .5:
        x = quiet(r.choice(FLT)) if r.random() < .5 else fbits(r.randint(-4000, 4000) / 4); return {"k": "f", "x": x, "w": "f" + x}
    d = r.choice([.1, 1 / 3, 1e-30, 1e-46, 16777217.0, 3.4028234e38, -2.2250738585072014e-308, r.uniform(-1e6, 1e6)])
    return {"k": "d", "x": fbits(d), "w": "d%016x" % struct.unpack("<Q", struct.pack("<d", d))}
def value(r, a):
    """a value for an attribute, rightly or wrongly made"""
    x = r.random(); n = a.c; fit = True
    if x < .25: n = r.choice([0, a.c - 1, a.c + 1, a.c + 1, a.c + 40, 1])
    elif x < .5: fit = False
    v = [item(r, True, a.t) for _ in range(n)]
    if not fit and v: v[r.randrange(n)] = item(r, False, a.t)
    s = r.choice(["t", "l"]) if r.random() < .92 else r.choice("snifdg")
    return s, (v if s in "tl" else [{"k": "s", "x": 0, "w": ""}] * 3 if s == "s" else [])

def typed(rng, n):
    """values of every kind, references and results that outlive what they came from"""
    g = Gen(rng, kinds=("simple",)); gone = []; live = {}; m = [0]; allk = []
    def refs(): return live
    g.new(); live[list(g.sets)[0]] = 1
    MISC = ["get-none", "set-none", "reg-none", "get-fixed", "wrong-set", "clone-str", "sort-arg", "info-list", "name-none", "file-none", "str-none", "add-none", "write-none", "fixed-for-particle", "add-type", "add-count", "read-none", "finfo"]
    for _ in range(n):
        r = rng
        if not g.sets: S = g.new(); live[S.h] = 1
        S = r.choice(list(g.sets.values())); x = r.random()
        if x < .12: a = g.add(S); allk += [("a", k) for k in (a.ks if a else [])]
        elif x < .18: a = g.add(S, fixed=True); allk += [("f", k) for k in (a.ks if a else [])]
        elif x < .26: g.look(S, r.random() < .3)
        elif x < .34: g.grow(S)
        elif x < .40: g.strop(S, r.random() < .4)
        elif x < .60 and S.A:
            a = r.choice(S.A); s, v = value(r, a); i = g.idx(S); g.emit(op="pyset", h=S.h, k=r.choice(a.ks), i=i, seq=s, v=v)
            if i < S.n and r.random() < .5: g.emit(op="pyget", h=S.h, k=r.choice(a.ks), i=i)
        elif x < .68 and S.F:
            a = r.choice(S.F); s, v = value(r, a); g.emit(op="pysetF", h=S.h, k=r.choice(a.ks), seq=s, v=v); g.rfix(S)
        elif x < .74 and S.A: a = r.choice(S.A); g.emit(op="pyget", h=S.h, k=r.choice(a.ks), i=r.choice([g.idx(S), -1, S.n, S.n + 1, 2**31 - 1, -7]))
        elif x < .78:
            def pt(): 
                q = [item(r, r.random() < .9, FLOAT) for _ in range(3)] if r.random() < .6 else [item(r, True, FLOAT) for _ in range(r.choice([0, 1, 2, 4, 5, 16, 17, 40]))]
                s = r.choice("tl") if r.random() < .9 else r.choice("snifdg")
                return s, (q if s in "tl" else [])
            s1, v1 = pt(); s2, v2 = pt(); g.emit(op="pyquery", h=S.h, w=r.choice(["box", "near"]), s1=s1, v1=v1, s2=s2, v2=v2)
        elif x < .82: g.emit(op="pyref", h=S.h); live[S.h] = live.get(S.h, 1) + 1
        elif x < .86:
            g.emit(op="rel", h=S.h); live[S.h] = live.get(S.h, 1) - 1
            if not live[S.h]: del g.sets[S.h]; del live[S.h]
        elif x < .89: T = g.clone(S); live[T.h] = 1
        elif x < .93 and (S.A or S.F):
            fx = r.random() < .4 and bool(S.F) or not S.A; a = r.choice(S.F if fx else S.A); w = r.choice(["get", "name", "strs"]) ; m[0] += 1
            if w == "strs" and a.t != STR: w = "name"
            if w == "get" and not fx and not S.n: w = "name"
            g.emit(op="pyres", m="k%d" % m[0], h=S.h, w=w + ("F" if fx else ""), k=r.choice(a.ks), i=r.randrange(S.n) if S.n and not fx else 0)
        elif x < .96 and m[0]: g.emit(op="pyagain", m="k%d" % r.randint(1, m[0]))
        elif x < .98 and allk: w, k = r.choice(allk); g.emit(op="pyattr", w=w, k=k)
        elif x < .99 and S.A: g.emit(op="pymisc", h=S.h, w=r.choice(MISC), k=r.choice(r.choice(S.A).ks))
        else: g.dump(S)
    for S in list(g.sets.values()): g.dump(S)
    for S in list(g.sets.values()):
        for _ in range(live[S.h]): g.emit(op="rel", h=S.h)
    for w, k in allk[:6]: g.emit(op="pyattr", w=w, k=k)
    for k in range(1, min(6, m[0] + 1)): g.emit(op="pyagain", m="k%d" % k)
    return g.p

def owned(rng, n):
    """who keeps a set alive: references to sets made, read, and shared by cached reads"""
    g = FGen(rng); r = rng; S0 = g.fset("BGEO", kind="simple"); g.p = to_py(g.p); p = "f.bgeo"; g.write_(S0, p); names = [p, "./f.bgeo"]; kinds = {}; ref = {}; marks = []
    shared = {}
    def got(h, k): kinds[h] = k; ref[h] = 1; marks.append("m%d" % len(marks)); g.emit(op="mark", h=h, m=marks[-1])
    for _ in range(n):
        x = r.random(); hs = list(kinds)
        if x < .2: got(g.read_(p), "r")
        elif x < .3: got(g.hdr_(p), "h")
        elif x < .5: got(g.cached_(r.choice(names), r.random() < .2), "c")
        elif x < .6: h = g.fresh("s"); g.emit(op="new", h2=h, kind="simple"); got(h, "n")
        elif x < .7 and hs: h = r.choice(hs); g.emit(op="pyref", h=h); ref[h] += 1
        elif hs and x < .92:
            h = r.choice(hs); g.emit(op="rel", h=h); ref[h] -= 1
            if not ref[h]: del kinds[h]
            for m in r.sample(marks, min(3, len(marks))): g.emit(op="freed", m=m)
        elif hs:
            h = r.choice(hs)
            if kinds[h] != "h": g.emit(op="dump", h=h)
    for h in list(kinds):
        for _ in range(ref[h]): g.emit(op="rel", h=h)
    for m in marks: g.emit(op="freed", m=m)
    return g.p

def P22(c):
    exe = python(c)
    def go(ps, what, scale=4): c.conform(ps, what, scale=scale, exe=exe)
    def rng(tag, i): return random.Random("P22/%s/%d/%d" % (tag, c.seed, i))
    q = c.quick
    for prof, dq, dt in (("grow", 3, 4), ("str", 3, 3), ("strf", 3, 3), ("fixed", 4, 5), ("clone", 2, 3), ("merge", 4, 5)):
        ps = c.maximal(c.model(prof, dq if q else dt, "paths"))
        go([to_py(PS.observe(p)) for p in ps], "model %s through the module" % prof)
    go([to_py(typed(rng("t", i), 60)) for i in range(300 if q else 3000)], "values of all kinds, references, kept results")
    W = dict(addA=5, addF=3, look=4, lookF=2, grow=7, write=12, read=10, count=2, dump=2, new=1, release=.6, str=6, strF=3, wfix=4, rfix=4, clone=2, tname=.3, big=.2)
    go([to_py(PS.mixed(rng("r", i), 60, W, ("simple",)).p) for i in range(200 if q else 2000)], "random histories")
    go([to_py(PS.merge_prog(rng("m", i))[0]) for i in range(150 if q else 1500)], "merges")
    ps = []
    for i in range(60 if q else 500):
        r = rng("q", i); g = Gen(r, kinds=("simple",)); S = g.new(); g.add(S, name="position", t=VECTOR, c=3); g.add(S, name="id", t=INT, c=1)
        n = r.choice([0, 1, 2, 3, 7, 12, 33, 100]); g.grow(S, n); pts = PS.cloud(g, S, r, n, r.choice(["grid", "random", "line", "same", "clusters"]), 4); g.complete(S)
        if r.random() < .2: PS.queries(g, S, r, pts, 4, 2)
        g.emit(op="sort", h=S.h); PS.queries(g, S, r, pts, 4, 12); g.dump(S); ps.append(to_py(g.p))
    go(ps, "sorted queries")
    go([to_py(PC.cluster_prog(rng("c", i), rng("cn", i).choice([0, 1, 2, 5, 9]), rng("ck", i).choice(["line", "axis", "same", "pyth", "any"]))) for i in range(40 if q else 400)], "clustering")
    def files(g, r):
        PF.roundtrip(g, r, r.choice(RW), inspect=False)
        if r.random() < .3: g.read_("missing.bgeo", verbose=r.random() < .5); g.emit(op="put", path="x.bgeo", fmt="JUNK", hex=b"not this".hex()); g.read_("x.bgeo"); g.hdr_("x.bgeo")
    ps = []
    for i in range(250 if q else 2500):
        g = FGen(rng("f", i)); files(g, g.r); ps.append(to_py(g.p))
    go(ps, "files written and read")
    go([owned(rng("o", i), 25) for i in range(150 if q else 1500)], "references and freeing")
CHECKS = dict(P22=P22)
