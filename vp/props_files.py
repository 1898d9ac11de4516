"""P12-P20, P24: particle files."""
from vp.check import *
from vp import core
import concurrent.futures as cf
from vp.files import *

def progs(c, tag, n, f):
    ps = []
    for i in range(n):
        g = FGen(random.Random("%s/%s/%d/%d" % (c.pid, tag, c.seed, i))); f(g, g.r)
        ps.append(g.p)
    return ps
def N(c, q, t): return q if c.quick else t

# one set written to a path, read back whole and headers only
def roundtrip(g, r, fmt, n=None, kind=None, inspect=True):
    S = g.fset(fmt, n, kind); p = g.path(fmt, r.random() < .15); g.write_(S, p, r.random() < .1)
    if fmt == "BGEO" and inspect: g.emit(op="raw", path=p)
    if fmt == "RIB": g.emit(op="rib", path=p); return
    g.read_(p); g.hdr_(p)
    if r.random() < .3:                       # another generation
        T = g.p[-2]["h2"]; q = g.path(fmt)
        g.emit(op="write", h=T, path=q, force=False, verbose=True); g.read_(q)
    if r.random() < .3: g.dump(S)
    return S, p

def external(g, r, fmt, make):
    data, x = make(r); p = g.path(fmt, False); g.put_(p, fmt, data, x)
    if r.random() < .3 and fmt != "PRT":
        q = g.path(fmt, r.random() < .5); g.emit(op="gz", path=p, path2=q, level=r.randint(0, 10), flags=r.randrange(128)); p = q
    g.read_(p); g.hdr_(p)

def big(c, fmts, title):
    """large sets, compared by digests of whole columns"""
    def f(g, r):
        fmt = r.choice(fmts); S = g.fset(fmt, 0, churn=False)
        keep = [a for a in S.A if not (fmt == "PTC" and a.n == "normal")]
        n = r.choice([100, 999, 2000, 5000]); g.grow(S, n)
        if fmt == "PTC" and len(keep) != len(S.A): return
        g.emit(op="fill", h=S.h, seed=r.randrange(1 << 20), mode="small" if fmt in ("PDC", "GEO", "PDA") else "any"); g.emit(op="cols", h=S.h)
        p = g.path(fmt, r.random() < .3); g.write_(S, p); g.read_(p, "c"); g.hdr_(p)
    c.conform(progs(c, "big", N(c, 24, 160), f), title)

def P12(c):
    c.conform(progs(c, "rt", N(c, 500, 4000), lambda g, r: roundtrip(g, r, "BGEO")), "BGEO round trips, bytes parsed independently")
    c.conform(progs(c, "ext", N(c, 250, 2000), lambda g, r: external(g, r, "BGEO", bgeo)), "BGEO files made independently, with primitives")
    def wide(g, r):
        data, x = bgeo_big(r); p = g.path("BGEO"); g.put_(p, "BGEO", data, x); g.read_(p, "c"); g.hdr_(p)
    c.conform(progs(c, "wide", N(c, 8, 48), wide), "BGEO files of others with about 65536 points")
    big(c, ["BGEO"], "large BGEO sets")

def P13(c):
    c.conform(progs(c, "geo", N(c, 350, 3000), lambda g, r: roundtrip(g, r, "GEO")), "GEO round trips")
    c.conform(progs(c, "pda", N(c, 350, 3000), lambda g, r: roundtrip(g, r, "PDA")), "PDA round trips")
    c.conform(progs(c, "ext", N(c, 100, 800), lambda g, r: external(g, r, "PDA", pda)), "PDA files made independently")
    big(c, ["GEO", "PDA"], "large GEO and PDA sets")

def P14(c):
    def detect(g, r):
        S, p = roundtrip(g, r, r.choice(["PDB32", "PDB64"]))
        q = "auto%d.pdb" % g.nf
        g.emit(op="cp", path=p, path2=q); g.read_(q); g.hdr_(q)
    c.conform(progs(c, "pdb", N(c, 350, 3000), detect), "PDB round trips, with detection of the word size")
    c.conform(progs(c, "pdc", N(c, 350, 3000), lambda g, r: roundtrip(g, r, "PDC")), "PDC round trips")
    def ext(g, r):
        k = r.randrange(5)
        if k == 0: external(g, r, "PDC", pdc)
        else:
            b = r.choice([32, 64]); data, x = pdb(r, b); p = r.choice(["f.pdb", "f.pdb%d" % b]); g.put_(p, "PDB%d" % b, data, x); g.read_(p); g.hdr_(p)
    c.conform(progs(c, "ext", N(c, 200, 1500), ext), "PDB and PDC files made independently")
    big(c, ["PDB32", "PDB64", "PDC"], "large PDB and PDC sets")

def P15(c):
    for fmt in ("PRT", "PTC", "BIN"):
        c.conform(progs(c, fmt, N(c, 250, 2500), lambda g, r: roundtrip(g, r, fmt)), fmt + " round trips")
        mk = {"PRT": prt, "PTC": ptc, "BIN": binf}[fmt]
        c.conform(progs(c, "ext" + fmt, N(c, 120, 1200), lambda g, r: external(g, r, fmt, mk)), fmt + " files made independently")
    big(c, ["PRT", "PTC", "BIN"], "large PRT, PTC and BIN sets")
    def dense(g, r):
        """compressors hold back much of data like this to the end"""
        S = g.new(); names = ["position", "velocity", "mass", "id", "spin", "w"]
        for nm in names[:r.choice([1, 2, 4, 6])]: g.add(S, nm, *((VECTOR, 3) if nm in ("position", "velocity", "spin") else (INT if nm == "id" else FLOAT, 1)))
        n = r.choice([341, 1000, 1365, 2700, 4000, 8000, 20000]) + r.randrange(60); g.grow(S, n); g.emit(op="fill", h=S.h, seed=r.randrange(1 << 20), mode="noise"); g.emit(op="cols", h=S.h)
        p = g.path("PRT"); g.write_(S, p); g.read_(p, "c"); g.hdr_(p)
    c.conform(progs(c, "dense", N(c, 24, 160), dense), "PRT sets that do not compress")

def P16(c):
    def fpts(g, r):
        lines, data = pts(r); p = "p%d.pts" % r.randrange(9); g.emit(op="pts", path=p, lines=lines, hex=data.hex())
        if r.random() < .3:
            q = "q.pts" + r.choice(["", ".gz"]); g.emit(op="gz", path=p, path2=q, level=r.randint(0, 10), flags=r.randrange(128)); p = q
        g.read_(p); g.hdr_(p)
    def fmc(g, r):
        ch, n, data = mc(r); p = "m%d.mc" % r.randrange(9); g.emit(op="mc", path=p, ch=ch, n=n, hex=data.hex()); g.read_(p); g.hdr_(p)
    c.conform(progs(c, "pts", N(c, 400, 4000), fpts), "PTS files")
    c.conform(progs(c, "mc", N(c, 300, 3000), fmc), "Maya cache files")
    c.conform(progs(c, "rib", N(c, 300, 3000), lambda g, r: roundtrip(g, r, "RIB")), "RIB exports, parsed")

def states(c, profs):
    """every combination of what is at some paths, each then read in every way"""
    for prof, mode, dq, dt in profs:
        ps = c.model(prof, N(c, dq, dt), mode, module="MCFiles", heap="6g")
        cap = N(c, 1500, 15000)
        if len(ps) > cap: c.rng.shuffle(ps); ps = ps[:cap]
        c.conform([[{k: v for k, v in e.items() if k != "r"} for e in p] for p in ps], "model MCFiles/%s (%s)" % (prof, mode))
def P17(c):
    states(c, [("five", "paths", 2, 3), ("three", "cover", 2, 5)])
    def f(g, r):
        fmt = r.choice(RW + ["RIB"]); big = r.random() < .15 and fmt != "PTC"
        S = g.fset(fmt, 0 if big else None, churn=not big)
        if big:
            g.grow(S, r.choice([700, 3000, 12000])); g.emit(op="fill", h=S.h, seed=r.randrange(1 << 20), mode="small"); g.emit(op="cols", h=S.h)
        o = "c" if big else "d"
        plain = g.path(fmt, stem="u"); forced = g.path(fmt, stem="v"); named = g.path(fmt, True, stem="w")
        w = [(plain, False), (forced, True), (named, False)]; r.shuffle(w)
        for p, fo in w: g.write_(S, p, fo)
        if fmt == "RIB": return
        if fmt != "PRT":
            for _ in range(2):
                p = r.choice([plain, forced]); q = g.path(fmt, r.random() < .5, stem="z"); g.emit(op="gz", path=p, path2=q, level=r.randint(0, 10), flags=r.randrange(128)); w.append((q, 0))
            q = g.path(fmt, True, stem="y"); g.emit(op="cp", path=plain, path2=q); w.append((q, 0))          # .gz in the name only
            q = g.path(fmt, False, stem="x"); g.emit(op="cp", path=named, path2=q); w.append((q, 0))
        r.shuffle(w)
        for p, _ in w[:5]:
            g.read_(p, o)
            if r.random() < .5: g.hdr_(p)
    c.conform(progs(c, "gz", N(c, 350, 3000), f), "compressed and plain files of every format")

def P18(c):
    states(c, [("two", "cover", 2, 4), ("four", "cover", 2, 4)])
    def f(g, r):
        k = r.random()
        if k < .7:
            fmt = r.choice(RW); S = g.fset(fmt, r.choice([None, None, 300])) if False else g.fset(fmt)
            p = g.path(fmt, r.random() < .4); g.write_(S, p)
        else:
            fmt, mk = r.choice([("BGEO", bgeo), ("PRT", prt), ("BIN", binf), ("PTC", ptc), ("PDC", pdc), ("PDA", pda), ("PDB32", lambda r: pdb(r, 32)), ("PDB64", lambda r: pdb(r, 64))])
            data, x = mk(r); p = g.path(fmt); g.put_(p, fmt, data, x)
        if fmt in ("PDB32", "PDB64"):
            q = "any.pdb"; g.emit(op="cp", path=p, path2=q); p = r.choice([p, q])
        if r.random() < .4 and fmt != "PRT":
            q = p.split(".")[0] + "_z." + p.split(".", 1)[1]; g.emit(op="gz", path=p, path2=q, level=r.randint(0, 10), flags=r.randrange(128)); p = q
        o = r.choice([("read", "hdr"), ("hdr", "read"), ("hdr", "hdr")])
        for x in o:
            h = g.read_(p) if x == "read" else g.hdr_(p)
            if x == "hdr": g.emit(op="cnt", h=h); g.emit(op="mark", h=h, m="m" + h); g.emit(op="hdrs", h=h); g.emit(op="rel", h=h); g.emit(op="freed", m="m" + h)
        if r.random() < .3:
            bad = g.path(fmt, stem="bad"); g.put_(bad, "JUNK", bytes(r.getrandbits(8) for _ in range(r.choice([0, 3, 40, 400]))))
            if fmt in ("BGEO", "PDB32", "PDB64", "PDC", "PRT", "PTC", "BIN", "PDA"): g.hdr_(bad); g.read_(bad)
            g.hdr_("nofile." + bad.split(".")[-1])
    c.conform(progs(c, "h", N(c, 500, 4000), f), "header reads of files of every format")

EXTS = ["bgeo", "bhclassic", "itbl", "atbl", "geo", "hclassic", "pdb", "pdb32", "pdb64", "pda", "pdc", "prt", "ptc", "ptf", "bin", "rib", "pts", "mc"]
ODD = ["", "x", "bgeo2", "BGEO", "Pda", "gz", "txt", "pdb128", "geo%20", "b", "ptfx", "json", "zip"]
READER = {"bgeo": "BGEO", "bhclassic": "BGEO", "itbl": "BGEO", "atbl": "BGEO", "geo": "GEO", "hclassic": "GEO", "pdb": "PDB", "pdb32": "PDB32", "pdb64": "PDB64", "pda": "PDA", "pdc": "PDC", "prt": "PRT", "ptc": "PTC", "ptf": "PTC", "bin": "BIN", "rib": "RIB", "pts": "PTS", "mc": "MC"}
def name_of(g, r, ext):
    s = r.choice(["n", "a.bgeo", "x.gz", "d.pda", "no.ext.at.all", "q-1", "deep.geo", "b.pdb.bin"]) + str(r.randrange(4))
    if ext == "": s = "plain" + str(r.randrange(4))
    return r.choice(["", "", "./", "nodir/"] if r.random() < .5 else [""]) + (s + "." + ext if ext else s) + (".gz" if r.random() < .2 else "")
SIGS = [b"", b"B", b"Bgeo", b"Vgeo" * 30, b"PDC ", b"FOR4", b"\xc0PRT\r\n\x1a", b"ATTRIB", b"ppt", b"pptc", b"\xda\xba\xfb", b"\xda\xba\xfa", b"\0" * 500, b"\x9e\x02\0", b"\x7fNSJ" + b"x" * 200, b"PGEOMETRY V5\n", b"\n" * 50, b"1 2 3\n" * 9]
MAGIC = [b"Bgeo", b"PDC ", b"\xc0PRT\r\n\x1a\n", b"pptc", b"\xda\xba\xfa\0", b"\x9e\x02\0\0", b"FOR4", b"ATTRIBUTES", b"\x1f\x8b"]
def clean(sig):
    """junk must not carry a whole signature"""
    return b"Q" + sig[1:] if any(sig.startswith(m) for m in MAGIC) else sig
PDBS = {"PDB", "PDB32", "PDB64"}
class Disk:
    """what kind of file is where: keeps programs inside the contract"""
    def __init__(s): s.h = {}
    @staticmethod
    def nrm(p): return p[2:] if len(p) > 2 and p.startswith("./") else p
    def at(s, p): return s.h.get(s.nrm(p))
    def writer(s, p): f = READER.get(ext_of(p)); return {"PDB": "PDB32", "PTS": None, "MC": None}.get(f, f)
    def write(s, p, n, refused):
        f = s.writer(p)
        if f is None or (f == "PRT" and n == 0) or p.startswith("nodir/") or s.at(p) == "DIR": return
        s.h[s.nrm(p)] = "ANY" if refused else f
    def can_read(s, p):
        f = s.at(p); rf = READER.get(ext_of(p)); rf = None if rf == "RIB" else rf
        return not (rf in PDBS and f in PDBS and not (rf == f or rf == "PDB"))
def ext_of(p):
    if "." not in p: return None
    b, x = p.rsplit(".", 1)
    if x != "gz": return x
    return b.rsplit(".", 1)[1] if "." in b else None
def P19(c):
    states(c, [("one", "cover", 3, 9), ("two", "cover", 3, 5), ("three", "cover", 3, 9), ("four", "cover", 3, 5), ("five", "cover", 9, 9), ("six", "cover", 3, 5)])
    def f(g, r):
        Ss = {}; dk = Disk(); paths = []
        for _ in range(r.randint(6, 14)):
            k = r.random(); verbose = r.random() < .6
            if k < .3:
                ext = r.choice(EXTS + ODD); p = name_of(g, r, ext); fmt = dk.writer(p) or "BGEO"
                if fmt not in Ss: Ss[fmt] = g.fset(fmt, r.choice([0, 1, 3]))
                g.write_(Ss[fmt], p, r.random() < .2, verbose); dk.write(p, Ss[fmt].n, fmt in ("BGEO", "GEO", "PTC", "RIB") and False); paths.append(p)
            elif k < .36:
                fmt = r.choice(["BGEO", "GEO", "PTC", "RIB"]); S = g.new("simple"); g.add(S, "mass", FLOAT, 1); g.grow(S, 2); g.complete(S)      # no position: refused
                p = g.path(fmt, r.random() < .2, stem=r.choice(["n", "nodir/x"])); g.write_(S, p, False, verbose); dk.write(p, 2, True); paths.append(p)
            elif k < .5:
                p = name_of(g, r, r.choice(EXTS))
                if "nodir/" in p or dk.at(p) == "DIR": continue
                g.put_(p, "JUNK", clean(r.choice(SIGS + [bytes(r.getrandbits(8) for _ in range(r.choice([1, 8, 64, 500])))]))); dk.h[dk.nrm(p)] = "JUNK"; paths.append(p)
            elif k < .55:
                p = "dir%d.%s" % (r.randrange(3), r.choice(EXTS))
                if dk.at(p): continue
                g.emit(op="mkdir", path=p); paths.append(p); dk.h[p] = "DIR"
            elif k < .59 and paths:
                p = r.choice(paths)
                if dk.at(p): g.emit(op="unlink", path=p); dk.h.pop(dk.nrm(p))
            elif k < .72 and paths:
                p = r.choice(paths); q = name_of(g, r, r.choice(EXTS + ODD))         # the same bytes under another name
                if not dk.at(p) or dk.at(p) == "DIR" or dk.at(q) == "DIR" or q.startswith("nodir/"): continue
                g.emit(op="cp", path=p, path2=q); dk.h[dk.nrm(q)] = dk.at(p); paths.append(q)
            else:
                p = r.choice(paths) if paths and r.random() < .75 else name_of(g, r, r.choice(EXTS + ODD))
                if not dk.can_read(p): continue
                x = r.random()
                if x < .4: g.read_(p, "c" , verbose)
                elif x < .75: g.hdr_(p, verbose)
                else: g.cached_(p, r.random() < .3, verbose, "c")
        p = g.path("BGEO", stem="last"); S = g.fset("BGEO", 2); g.write_(S, p); g.read_(p)
    c.conform(progs(c, "d", N(c, 700, 6000), f), "dispatch and failures in random histories")
    def strange(g, r):
        """files of a format using what is not supported, and after each failure something that works"""
        for k in range(4):
            fmt, data = alien(r); p = "s%d.%s" % (k, r.choice(ZEXT[fmt])); g.put_(p, fmt, data, alien=True)
            if r.random() < .4: q = g.path(fmt, r.random() < .5, stem="z"); g.emit(op="gz", path=p, path2=q, level=r.randint(0, 10), flags=r.randrange(128)); p = q
            elif r.random() < .2: q = "o%d.%s" % (k, r.choice(["pdb", "bgeo", "prt", "ptf", "bin"])); g.emit(op="cp", path=p, path2=q); p = q
            o = [g.read_, g.hdr_, g.cached_]; r.shuffle(o)
            for x in o[:r.choice([1, 2, 3])]: x(p, verbose=r.random() < .6)
        S, p = roundtrip(g, r, r.choice(["BGEO", "PTC", "BIN", "GEO"])); g.cached_(p)
    c.conform(progs(c, "strange", N(c, 250, 2500), strange), "files using what is not supported")

def cut_reads(g, r, p, num, den, off, fmt, pool):
    q = "t%d.%s%s" % (g.nf, pool[0], r.choice(["", "", ".gz"])); g.nf += 1
    if r.random() < .12 and fmt != "PRT": g.emit(op="gzcut", path=p, path2=q, num=num, den=den, off=off, level=r.choice([0, 1, 6, 9]))
    else: g.emit(op="cut", path=p, path2=q, num=num, den=den, off=off)
    x = r.random(); o = "d" if fmt == "BGEO" else "c"; hs = []
    if x < .75: hs.append(g.read_(q, o, r.random() < .5))
    if x > .6: g.hdr_(q, r.random() < .5)
    if r.random() < .05: g.cached_(q, r.random() < .5, True, o)
    g.emit(op="unlink", path=q)
def cut_file(g, r, fmts=None):
    k = r.random()
    if k < .75:
        fmt = r.choice(fmts or RW); S = g.fset(fmt, r.choice([0, 1, 3, 8])); p = g.path(fmt); g.write_(S, p)
    else:
        fmt, mk = r.choice([("BGEO", bgeo), ("PRT", prt), ("BIN", binf), ("PTC", ptc), ("PDC", pdc), ("PDB32", lambda r: pdb(r, 32)), ("PDB64", lambda r: pdb(r, 64))])
        data, x = mk(r); p = g.path(fmt); g.put_(p, fmt, data, x)
    if fmt != "PRT" and r.random() < .35:
        q = g.path(fmt, stem="z"); g.emit(op="gz", path=p, path2=q, level=r.choice([0, 1, 6, 9]), flags=r.randrange(128)); p = q
    pool = [r.choice(ZEXT[fmt])]
    return fmt, p, pool
def P20(c):
    def sweep(g, r):
        fmt, p, pool = cut_file(g, r)
        for k in range(N(c, 30, 60)):
            cut_reads(g, r, p, r.randrange(1001), 1000, r.randint(-6, 6), fmt, pool)
        for k in range(-8, 1): cut_reads(g, r, p, 1, 1, k, fmt, pool)
    c.conform(progs(c, "cut", N(c, 220, 1600), sweep), "prefixes of files of every format")
    def every(g, r):
        fmt, p, pool = cut_file(g, r)
        w = r.choice([0, 64, 200, 400])
        for k in range(w, w + N(c, 80, 300)): cut_reads(g, r, p, 0, 1, k, fmt, pool)
    c.conform(progs(c, "all", N(c, 60, 400), every), "every cut point of a range")
    def bigcut(g, r):
        fmt = r.choice([f for f in RW if f != "PTC"]); S = g.fset(fmt, 0, churn=False); g.grow(S, r.choice([500, 3000]))
        g.emit(op="fill", h=S.h, seed=r.randrange(1 << 20), mode="small"); g.emit(op="cols", h=S.h); p = g.path(fmt, fmt != "PRT" and r.random() < .5); g.write_(S, p)
        for k in range(12):
            q = "t%d.%s" % (k, r.choice(ZEXT[fmt])); g.emit(op="cut", path=p, path2=q, num=r.randrange(1001), den=1000, off=0); g.read_(q, "c"); g.hdr_(q)
    c.conform(progs(c, "big", N(c, 16, 120), bigcut), "prefixes of large files")

def same_content(g, r, S, kind):
    """builds the same content again by another history"""
    T = g.new(kind)
    for a in S.A: g.add(T, a.n, a.t, a.c)
    for a in S.F: g.add(T, a.n, a.t, a.c, fixed=True)
    return T

def two_processes(c):
    """every program once in each of two processes, whose memory starts out differently; what must be repeatable is remembered"""
    a = c.driver(); b = c.driver("dirty", "driver.cpp", san="", extra=["-ftrivial-auto-var-init=uninitialized"], opt="-O1"); env = dict(core.ENV, MALLOC_PERTURB_="165", DRIVER_DIRTY="77")
    def run(ps, tag):
        with cf.ThreadPoolExecutor(2) as ex:
            x = ex.submit(run_driver, a, ps, c.work, tag + "a"); y = ex.submit(run_driver, b, ps, c.work, tag + "b", 300, env)
            return [p + [dict(q[0], op="restart")] + q[1:] if p and q and "bad" not in p[-1] else p for p, q in zip(x.result(), y.result())]
    return run
def P24(c):
    both = two_processes(c)
    def f(g, r):
        fmt = r.choice(RW); vals = {}
        mark = len(g.p); S = g.fset(fmt, r.choice([0, 1, 4, 9, 12, 25]), r.choice(["simple", "inter"]))
        # what the first history left in each cell and table
        cell = {}; single = {k for a in S.A if a.c == 1 for k in a.ks}; fx = {}; owner = {}; fowner = {}
        for a in S.A:
            for k in a.ks: owner[k] = a.n
        for a in S.F:
            for k in a.ks: fowner[k] = a.n
        n = 0
        for e in g.p[mark:]:
            if e["op"] == "set" and e["i"] < S.n: cell[(owner[e["k"]], e["i"])] = list(e["v"])
            elif e["op"] == "setc" and e["i"] < S.n and (owner[e["k"]], e["i"]) in cell: cell[(owner[e["k"]], e["i"])][e["j"]] = e["v"]
            elif e["op"] == "setc" and e["i"] < S.n and e["k"] in single: cell[(owner[e["k"]], e["i"])] = [e["v"]]
            elif e["op"] == "setF": fx[fowner[e["k"]]] = e["v"]
        sets = [S]
        for _ in range(r.choice([1, 2])):
            T = g.new(r.choice(["simple", "inter"])); A = {}; F = {}
            todo = [("A", a) for a in S.A]; grown = 0; written = {}
            for a in S.F: F[a.n] = g.add(T, a.n, a.t, a.c, fixed=True)
            # attributes added among growth and writes
            while todo or grown < S.n:
                if todo and (r.random() < .5 or grown == S.n):
                    _, a = todo.pop(0); A[a.n] = g.add(T, a.n, a.t, a.c)
                elif grown < S.n:
                    k = r.randint(1, S.n - grown); g.grow(T, k) if r.random() < .6 else [g.emit(op="addP", h=T.h) for _ in range(k)]
                    grown += k; T.n = grown
                if A and grown and r.random() < .5:
                    b = A[r.choice(list(A))]; i = r.randrange(grown); g.emit(op="set", h=T.h, k=b.ks[0], i=i, v=[r.choice(INTS) if b.t == INT else 0 if b.t == STR else g.fval() for _ in range(b.c)])
            for src, dst, sfx in ((S.A, A, ""), (S.F, F, "F")):
                for a in src:
                    b = dst[a.n]
                    if a.t == STR:
                        for w in a.strs:
                            g.emit(op="reg" + sfx, h=T.h, k=b.ks[0], s=w)
                            if r.random() < .3: g.emit(op="lku" + sfx, h=T.h, k=b.ks[0], s=w)
            order = list(cell); r.shuffle(order)
            for (nm, i) in order: g.emit(op="set", h=T.h, k=A[nm].ks[0], i=i, v=cell[(nm, i)])
            for nm, v in fx.items(): g.emit(op="setF", h=T.h, k=F[nm].ks[0], v=v)
            T.n = S.n; sets.append(T)
        if r.random() < .4:
            T = Set(g.fresh("s"), "simple"); g.emit(op="clone", h=S.h, h2=T.h, p=True, m=[]); sets.append(T); T.n = S.n
        # read-only operations on one of them, then every file
        V = r.choice(sets)
        for _ in range(r.randint(0, 6)):
            x = r.random()
            if x < .15 and V.kind == "simple" and any(a.n == "position" for a in S.A): g.emit(op="sort", h=V.h)
            elif x < .3: g.emit(op="print", h=V.h)
            elif x < .45: g.emit(op="touch", h=V.h)
            elif x < .6: g.emit(op="dump", h=V.h)
            elif x < .7: h = g.fresh("s"); g.emit(op="clone", h=V.h, h2=h, p=True, m=[]); g.emit(op="rel", h=h)
            elif x < .8: g.emit(op="write", h=V.h, path=g.path(fmt), force=r.random() < .5, verbose=True)
            elif x < .9 and V.A: g.iterate(V)
            elif V.A:
                B = g.new("simple"); g.emit(op="merge", h=B.h, d=V.h, ids=[])
        for T in sets:
            g.write_(T, g.path(fmt, r.random() < .2), r.random() < .1)
            if fmt in ("BGEO", "GEO") and r.random() < .3: g.write_(T, g.path(fmt))
            g.emit(op="print", h=T.h); g.dump(T)
            if fmt == "BGEO": g.write_(T, g.path("PDB64"))
    c.conform(progs(c, "same", N(c, 350, 3000), f), "the same content by several histories, in two processes: files and text", runner=both)
    def ro(g, r):
        """read-only operations of every kind, the set observed after each"""
        S = g.fset(r.choice(["BGEO", "PTC"]), r.choice([0, 1, 5, 12]), "simple"); g.dump(S)
        small = all(abs(bitsf(x)) < 1e5 for x in [])
        for _ in range(r.randint(4, 10)):
            x = r.randrange(9)
            if x == 0: g.emit(op="sort", h=S.h)
            elif x == 1: g.emit(op="print", h=S.h)
            elif x == 2: g.iterate(S)
            elif x == 3: g.bulk(S)
            elif x == 4: g.write_(S, g.path("PDB32"), r.random() < .3)
            elif x == 5: h = g.fresh("s"); g.emit(op="clone", h=S.h, h2=h, p=r.random() < .7, m=[]); g.emit(op="dump", h=h)
            elif x == 6: h = g.fresh("s"); g.emit(op="schema", h=S.h, h2=h, m=[])
            elif x == 7: B = g.new("simple"); g.add(B, "position", VECTOR, 3); g.grow(B, 2); g.emit(op="merge", h=B.h, d=S.h, ids=["id"])
            else: g.strop_read(S)
            g.dump(S); g.count(S)
    c.conform(progs(c, "ro", N(c, 200, 1500), ro), "read-only operations, the set observed after each")

CHECKS = {"P12": P12, "P13": P13, "P14": P14, "P15": P15, "P16": P16, "P17": P17, "P18": P18, "P19": P19, "P20": P20, "P24": P24}
