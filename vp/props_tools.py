"""P23: JSON and the command line tools."""
from vp.check import *
from vp.files import *
from vp import props_store as PS, props_files as PF, props_python as PP
import random

def tools(c):
    """The interpreter of P22 with the tools of the working tree at hand."""
    if "tools" not in c.exes:
        with cf.ThreadPoolExecutor(2) as ex:
            a = ex.submit(PP.python, c)
            d = os.path.join(c.work, "b_tools"); b = ex.submit(build.build_driver, d, {t: os.path.join(build.REPO, "src/tools", t + ".cpp") for t in ("partconvert", "partinfo", "partattr")})
            py = a.result(); b.result()
        exe = os.path.join(c.work, "pytools.sh")
        with open(exe, "w") as f: f.write("#!/bin/sh\nexport VP_TOOLS='%s'\nexec %s \"$@\"\n" % (d, py))
        os.chmod(exe, 0o755); c.exes["tools"] = exe
    return c.exes["tools"]

def nonan(h):
    if isinstance(h, str) and HEX.match(h) and (int(h, 16) & 0x7f800000) == 0x7f800000: return h if int(h, 16) & 0x7fffff == 0 else "3f800000"
    return h
def plain(p):
    r = []
    for e in PP.to_py(p):
        if e["op"] in ("set", "setF"): e["v"] = [nonan(x) for x in e["v"]]
        r.append(e)
    return r
BINNAMES = [b[0] for b in BINSCHEMA]
NAMES = ["velocity", "mass", "life", "id", "type", "name", "clan", "v", "density", "a", "b", "zeta", "Alpha", "a_rather_long_attribute_name"]
SIMPLE = ["a", "b", "foo", "bar", "x1", "longer_string", "0", "A"]
class TGen(FGen):
    """Sets for which every format of a list has room"""
    def fval(s):
        v = nonan(super().fval())
        return v
    def tset(s, fmts, n=None, simple=False, fixed=True):
        r = s.r; text = any(f in ("GEO", "PDA", "RIB") for f in fmts); s.sf = not text; s.noSnan = False
        s.strs = SIMPLE if simple else PRINTABLE if text else STRS
        names = [x for x in NAMES if not ("BIN" in fmts and x in BINNAMES)]
        if "PRT" in fmts: names.remove("Alpha")
        S = s.new("simple"); out = []
        for nm in r.sample(names, r.choice([0, 1, 2, 3, 5])):
            t = r.choice([VECTOR, FLOAT, INT, STR]); c = 3 if t == VECTOR else 1
            if "PDC" not in fmts and r.random() < .3: t, c = r.choice([(FLOAT, 2), (INT, 3), (STR, 2), (FLOAT, 3), (FLOAT, 16), (VECTOR, 3), (INT, 2)])
            out.append((nm, t, c))
        if "BIN" not in fmts and r.random() < .4: out.append(("radius", FLOAT, 1))
        norm = "BIN" not in fmts and not text and r.random() < .3
        if norm: out.append(("normal", VECTOR, 3))
        r.shuffle(out)
        if r.random() < .93 or simple: out.insert(r.randint(0, len(out)), ("position", VECTOR, 3))
        for nm, t, c in out: s.add(S, nm, t, c)
        if fixed:
            for _ in range(r.choice([0, 0, 1, 3])):
                t = r.choice([VECTOR, FLOAT, INT, STR]); s.add(S, r.choice(names), t, 3 if t == VECTOR else r.choice([1, 1, 2, 4]), fixed=True)
        n = r.choice([0, 1, 1, 2, 3, 5, 9, 13]) if n is None else n
        if n: s.grow(S, n)
        for a in S.A + S.F:
            if a.t == STR:
                for w in r.sample(s.strs, min(len(s.strs), r.choice([1, 2, 4, 8]))): s.emit(op="regF" if a in S.F else "reg", h=S.h, k=a.ks[0], s=w); a.strs.append(w)
            if a.n == "normal" and a in S.A:
                for i in range(n): s.emit(op="set", h=S.h, k=a.ks[0], i=i, v=[fbits(r.randint(-50, 50) / 4) for _ in range(3)]); a.w.add(i)
        if r.random() < .4:
            for a in S.A + S.F:
                if a.t == STR and a.strs and r.random() < .6:     # a string changed, perhaps to one that is there already
                    fx = a in S.F; tok = r.randrange(len(a.strs)); w = r.choice(s.strs)
                    s.emit(op="renF" if fx else "ren", h=S.h, k=a.ks[0], tok=tok, s=w); a.strs[tok] = w
        s.complete(S); return S
def pick(r, k, ok):
    while True:
        c = [r.choice(RW) for _ in range(k)]
        if r.random() < .1: c.append("RIB")
        if "PDC" in c and "PTC" in c: continue
        if c.count("BIN") > 1 and ("PTC" in c or "PDC" in c): continue
        if ok(c): return c

def convert(r):
    """files converted from format to format"""
    g = TGen(r); chain = pick(r, r.choice([2, 2, 3, 4]), lambda c: c[0] != "RIB"); S = g.tset(chain); p = g.path(chain[0], gz=r.random() < .2 and chain[0] != "PRT"); g.write_(S, p)
    if r.random() < .2: g.emit(op="print", h=S.h)
    for f in chain[1:]:
        if r.random() < .3 and S.n and any(a.n == "position" for a in S.A): h = g.read_(p); g.emit(op="print", h=h)
        q = g.path(f, gz=r.random() < .2 and f != "PRT") if r.random() < .93 else "nodir/" + g.path(f)
        if r.random() < .05: g.emit(op="conv", path=p, path2=q[:q.index(".")] + r.choice([".xyz", ".pts", ".mc", ""]))
        g.emit(op="conv", path=p, path2=q)
        if q.startswith("nodir/"): continue
        if f != "RIB" and r.random() < .7: g.read_(q)
        if f != "RIB": p = q
        if r.random() < .1: g.emit(op="conv", path=p, path2=p)
    g.read_(p)
    if r.random() < .2: g.emit(op="put", path="x.bgeo", fmt="JUNK", hex=b"not this".hex()); g.emit(op="conv", path=r.choice(["x.bgeo", "missing.bgeo", "missing.xyz", "nodir/a.bgeo"]), path2=p); g.read_(p)
    return g.p
def given(r):
    """files made by others, converted"""
    g = TGen(r); k = r.choice(["bgeo", "prt", "bin", "ptc", "pdb32", "pdb64", "pdc", "pda", "pts", "mc"]); p = "in." + {"pdb32": "pdb"}.get(k, k)
    if k == "pts": lines, o = pts(r, cols=r.choice([3, 4, 6, 7, 8])); g.emit(op="pts", path=p, lines=lines, hex=o.hex())
    elif k == "mc": ch, n, o = mc(r); g.emit(op="mc", path=p, ch=ch, n=n, hex=o.hex())
    else:
        o, x = {"bgeo": bgeo, "prt": prt, "bin": binf, "ptc": ptc, "pdb32": lambda r: pdb(r, 32), "pdb64": lambda r: pdb(r, 64), "pdc": pdc, "pda": pda}[k](r); g.put_(p, {"pdb32": "PDB32", "pdb64": "PDB64"}.get(k, k.upper()), o, x)
    # back to its own format, which has room for it, or to the one that has room for most
    q = "out." + (k if k not in ("pts", "mc") and r.random() < .4 else r.choice(["bgeo", "bgeo.gz", "pdb64"]))
    if q == "out.bgeo" and k == "bgeo" or k not in ("bin", "ptc", "pts", "mc") and "bgeo" in q and k != "bgeo": q = "out.pdb64"
    g.emit(op="conv", path=p, path2=q); g.read_(q); return g.p
def report(r):
    g = TGen(r); fmt = r.choice(RW); S = g.tset([fmt] + (["GEO"] if r.random() < .5 else []), simple=True, n=r.choice([1, 2, 5, 12, 15]) if r.random() < .9 else 0); p = g.path(fmt, gz=fmt != "PRT" and r.random() < .2); g.write_(S, p)
    nm = [a.n for a in S.A] + ["missing", "position", "id", "normal"]
    for _ in range(3):
        if r.random() < .5:
            idx = [r.choice([0, S.n - 1, r.randrange(S.n + 1), S.n, 10**6]) for _ in range(r.choice([0, 0, 1, 3]))]; idx = [max(0, i) for i in idx]
            g.emit(op="info", path=p, idx=idx, flags=r.choice([[], [], ["-a"], ["--all"], ["-s"], ["--strings"], ["-s", "-a"], ["-x"]]))
        else: g.emit(op="attr", path=p, n=r.choice(nm), max=r.choice([-1, -1, 0, 1, 3, S.n, 100]))
    if r.random() < .2: g.emit(op="info", path="missing.bgeo", idx=[], flags=[]); g.emit(op="attr", path="missing.bgeo", n="a", max=-1)
    return g.p
def json_(r):
    W = dict(addA=5, addF=4, look=2, lookF=2, grow=6, write=12, read=1, str=8, strF=5, wfix=6, clone=1, release=.4, new=.8)
    m = PS.mixed(r, r.choice([15, 30, 60]), W, ("simple",)); g = m
    for S in list(g.sets.values()):
        if r.random() < .5: g.complete(S)
        h = g.fresh("j"); g.emit(op="json", h=S.h, h2=h, how=r.choice(["mem", "text", "pretty"])); g.emit(op="dump", h=h)
        if r.random() < .3: h2 = g.fresh("j"); g.emit(op="json", h=h, h2=h2, how=r.choice(["mem", "text"])); g.emit(op="rel", h=h); g.emit(op="dump", h=h2)
        g.dump(S)
    return plain(g.p)
def partjson(r):
    """through files with the tool"""
    g = TGen(r); E = {"BGEO": ["bgeo", "bhclassic"], "GEO": ["geo"], "PTC": ["ptc"], "PDB32": ["pdb"]}
    chain = [r.choice(list(E)) for _ in range(r.choice([2, 3]))]; S = g.tset(chain); k = [0]
    def path(f): k[0] += 1; return "%s%d.%s" % (r.choice(["f", "a.b", "bgeo"]), k[0], r.choice(E[f]))
    def fl(): return r.choice([[], [], ["-v"], ["--verbose"]]) + (["process"] if r.random() < .03 else [])
    p = path(chain[0]); g.write_(S, p)
    if r.random() < .3 and any(a.n == "position" for a in S.A): g.emit(op="cp", path=p, path2="keep." + p.split(".")[-1])
    for f in chain[1:]:
        j = "j%d.json" % k[0]; q = path(f)
        g.emit(op="pj", path=p, path2=j, flags=fl(), c=r.random() < .2)
        if r.random() < .1: g.emit(op="pj", path=j, path2=r.choice(["a.bin", "a.json", "a", "a.bgeo.gz"]), flags=fl(), c=False)
        g.emit(op="pj", path=j, path2=q, flags=fl(), c=r.random() < .3); g.read_(q); p = q
        if any(a.n == "position" for a in S.A): g.emit(op="fstat", path=q)
    if r.random() < .2:
        g.emit(op="pj", path=r.choice(["missing.bgeo", "missing.json", "missing.bin"]), path2=r.choice([p, "o.json", "o.bgeo"]), flags=fl(), c=False)
        g.emit(op="put", path="x.bgeo", fmt="JUNK", hex=b"junk".hex()); g.emit(op="pj", path="x.bgeo", path2="o.json", flags=fl(), c=False); g.read_(p)
    return g.p

def P23(c):
    exe = tools(c); q = c.quick
    def rng(tag, i): return random.Random("P23/%s/%d/%d" % (tag, c.seed, i))
    def go(f, tag, n, what):
        c.conform([plain(f(rng(tag, i))) for i in range(n)], what, exe=exe)
    for prof, dq, dt in (("str", 3, 3), ("strf", 3, 3), ("fixed", 3, 5), ("grow", 3, 4)):
        ps = []
        for p in c.maximal(c.model(prof, dq if q else dt, "paths")):
            p = plain(PS.observe(p)); hs = []
            for e in p:
                if e["op"] == "new": hs.append(e["h2"])
                if e["op"] == "rel" and e["h"] in hs: hs.remove(e["h"])
            for k, h in enumerate(hs): p = p + [dict(op="json", h=h, h2="j%d" % k, how=["mem", "text"][k % 2]), dict(op="dump", h="j%d" % k)]
            ps.append(p)
        c.conform(ps, "model %s then JSON" % prof, exe=exe)
    go(json_, "j", 300 if q else 3000, "JSON of random sets")
    go(partjson, "p", 250 if q else 2500, "partjson on files")
    go(convert, "c", 300 if q else 3000, "chains of conversions")
    go(given, "g", 80 if q else 800, "files of others converted")
    go(report, "r", 250 if q else 2500, "partinfo and partattr")
CHECKS = dict(P23=P23)
