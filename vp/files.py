"""Particle files made without Partio, and random sets and histories for each format."""
import struct, zlib, math
from vp.core import *
from vp.gen import *

ZEXT = {"BGEO": ["bgeo", "bhclassic", "itbl", "atbl"], "GEO": ["geo", "hclassic"], "PDB32": ["pdb", "pdb32"], "PDB64": ["pdb64"], "PDA": ["pda"],
        "PDC": ["pdc"], "PRT": ["prt"], "PTC": ["ptc", "ptf"], "BIN": ["bin"], "RIB": ["rib"]}
RW = ["BGEO", "GEO", "PDB32", "PDB64", "PDA", "PDC", "PRT", "PTC", "BIN"]
WORDS = ["velocity", "mass", "life", "id", "type", "name", "clan", "P", "v", "density", "a", "b", "Cd", "long_attribute_name_is_long"]
BINSCHEMA = [("position", 1, 3), ("velocity", 1, 3), ("force", 1, 3), ("vorticity", 1, 3), ("normal", 1, 3), ("neighbors", 3, 1), ("uvw", 1, 3), ("age", 2, 1),
             ("isolationTime", 2, 1), ("viscosity", 2, 1), ("density", 2, 1), ("pressure", 2, 1), ("mass", 2, 1), ("temperature", 2, 1), ("id", 3, 1)]
PRINTABLE = ["a", "b", "ab", "foo", "%", enc("with space"), enc("q\"uo\\te"), enc("é∞"), enc("x" * 300), "0", "-1", enc("a "), enc(" a"), enc("\\"), enc("\""), enc("\\\""), enc("][{}"),
             enc("\\n"), enc("end\\"), enc("beginExtra"), enc("tab\there"), enc("'")]

class FGen(Gen):
    """Random sets that a format has room for, built by random histories."""
    def __init__(s, rng, **kw):
        super().__init__(rng, **kw); s.nf = 0
    def special(s, fmt): s.sf = fmt not in ("GEO", "PDA", "RIB"); s.noSnan = fmt == "PDC"
    def fval(s):
        v = super().fval()
        if getattr(s, "noSnan", False) and (int(v, 16) & 0x7f800000) == 0x7f800000: v = "7f800000"
        if not s.sf and (int(v, 16) & 0x7f800000) == 0 and int(v, 16) & 0x7fffffff: v = "00000000"
        return v
    def fset(s, fmt, n=None, kind=None, churn=True):
        r = s.r; s.special(fmt)
        s.strs = PRINTABLE if fmt == "GEO" else STRS
        pool = [w for w in (WORDS if fmt in ("GEO", "PDA", "PTC", "RIB") else POOL) if w != "position"]
        if fmt == "PRT": pool = [w for w in pool if len(dec(w)) <= 31] + ["x" * 31, "Xyz", "Mass2"]
        if fmt == "BGEO": pool += ["n" * 300]
        if fmt in ("PDB32", "PDB64", "PDC") and r.random() < .3: pool += ["m" * k for k in (31, 32, 63, 64, 65, 127, 128, 255, 256, 300, 1000)]
        if fmt in ("BGEO", "PDB32", "PDB64"): s.strs = STRS + [enc("y" * 5000)]
        S = s.new(kind); lst = []
        if fmt == "PTC": lst = [("normal", 1, 3)] * (r.random() < .6) + [("radius", 2, 1)] * (r.random() < .6)
        if fmt == "BIN": lst = [x for x in BINSCHEMA[1:] if r.random() < .5]
        if fmt == "RIB": lst = [x for x in [("radius", 2, 1), ("position2", 1, 3), ("width", 2, 1), ("P2", 1, 3), ("radiusPP", 2, 1)] if r.random() < .2]
        for _ in range(r.choice([0, 1, 2, 3, 5, 8])):
            nm = r.choice(pool); t, c = s.shape()
            if fmt == "PDC":
                t = r.choice([1, 2, 3, 4]); c = 3 if t == 1 else 1
            if fmt == "PTC" and nm in ("normal", "radius"): continue
            if fmt == "BIN" and nm in [b[0] for b in BINSCHEMA]: continue
            if fmt == "RIB" and nm in ("P", "position", "position2", "P2") and r.random() < .8: continue
            if fmt == "PRT" and t == INT and r.random() < .3: t = FLOAT
            lst.append((nm, t, c))
        r.shuffle(lst); seen = {"position"}; out = []
        for x in lst:
            key = x[0]
            if fmt == "PRT" and key[:1].isascii() and key[:1].isupper(): key = key[0].lower() + key[1:]
            if key in seen: continue
            seen.add(key); out.append(x)
        at = r.choice([0, 0, len(out), r.randint(0, len(out))])
        out.insert(at, ("position", 1, 3))
        if fmt not in ("BGEO", "GEO", "PTC", "RIB") and r.random() < .15: out.pop(at)
        for nm, t, c in out: s.add(S, nm, t, c)
        for _ in range(r.choice([0, 0, 1, 3]) if fmt != "BIN" else 0): s.add(S, r.choice(POOL), fixed=True)
        n = r.choice([0, 1, 2, 3, 5, 9, 13, 30]) if n is None else n
        if fmt == "PRT": n = max(1, n)
        if n and r.random() < .5: s.grow(S, n)
        else:
            while S.n < n: s.emit(op="addP", h=S.h); S.n += 1
        for a in S.A + S.F:
            if a.t == STR:
                fx = a in S.F
                for _ in range(r.choice([0, 1, 3, 7])):
                    w = r.choice(s.strs)
                    s.emit(op="regF" if fx else "reg", h=S.h, k=a.ks[0], s=w)
                    if w not in a.strs: a.strs.append(w)
        if fmt == "PTC":
            for a in S.A:
                if a.n == "normal":
                    for i in range(S.n):
                        m = r.choice([1, 3, 50, 400]); v = [r.randint(-m, m) for _ in range(3)]
                        if r.random() < .3: v = r.choice([[0, 0, 0], [0, 0, 1], [0, 0, -1], [1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, -1, 1], [-1, 0, 400], [0, -400, 1]])
                        s.emit(op="set", h=S.h, k=a.ks[0], i=i, v=[fbits(x / 4) for x in v]); a.w.add(i)
        if churn:
            for _ in range(r.randint(0, 6)):
                x = r.random(); A_ = [a for a in S.A if not (fmt == "PTC" and a.n == "normal")]
                if A_ and S.n and x < .5: s.write(S, r.choice(A_))
                elif x < .7: s.strop(S)
                elif x < .8: s.strop(S, True)
        s.complete(S)
        # tokens must be valid in a string table
        return S
    def strop_read(s, S):
        for a, sfx in [(a, "") for a in S.A] + [(a, "F") for a in S.F]:
            if a.t == STR: s.emit(op=s.r.choice(["lku"]) + sfx, h=S.h, k=a.ks[0], s=s.r.choice(s.strs)); s.emit(op="strs" + sfx, h=S.h, k=a.ks[0])
    def path(s, fmt, gz=False, stem=None):
        s.nf += 1
        return "%s%d.%s%s" % (stem or s.r.choice(["f", "a.b", "x-y_z", "bgeo", "p.geo"]), s.nf, s.r.choice(ZEXT[fmt]), ".gz" if gz else "")
    def write_(s, S, path, force=False, verbose=True): s.emit(op="write", h=S.h, path=path, force=force, verbose=verbose)
    def read_(s, path, obs="d", verbose=True):
        h = s.fresh("r"); s.emit(op="read", path=path, h2=h, verbose=verbose, obs=obs); return h
    def hdr_(s, path, verbose=True):
        h = s.fresh("h"); s.emit(op="hdr", path=path, h2=h, verbose=verbose); return h
    def cached_(s, path, sort=False, verbose=True, obs="d"):
        h = s.fresh("c"); s.emit(op="cached", path=path, h2=h, sort=sort, verbose=verbose, obs=obs); return h
    def put_(s, path, fmt, data, x=None, **k):
        e = dict(op="put", path=path, fmt=fmt, hex=data.hex(), **k)
        if x is not None: e["x"] = x
        s.emit(**e)

# ---------------------------------------------------------------- descriptions of content
def desc(A, n, d, F=()):
    """A: (name, type, arity, strings); d: per attribute, per particle, components; F: (name, type, arity, strings, value)"""
    return {"n": n, "a": [{"n": a[0], "t": a[1], "c": a[2], "s": list(a[3])} for a in A], "d": d,
            "f": [{"n": f[0], "t": f[1], "c": f[2], "s": list(f[3]), "v": list(f[4])} for f in F]}
def rfl(r, wide=True):
    x = r.random()
    return fbits(r.randint(-4000, 4000) / 4) if x < .6 or not wide else r.choice(["7f800000", "ff800000", "80000000", "00000001", "7f7fffff"]) if x < .7 else "%08x" % (r.getrandbits(32) & 0xbfffffff)
def rint(r): return r.choice(INTS) if r.random() < .5 else r.randint(-2**31, 2**31 - 1)
def cells(r, A, n, wide=True):
    return [[[(r.randrange(len(a[3])) if a[3] else 0) if a[1] == STR else rint(r) if a[1] == INT else rfl(r, wide) for _ in range(a[2])] for _ in range(n)] for a in A]
def w32(v, end): return struct.pack(end + "I", (v & 0xffffffff) if isinstance(v, int) else int(v, 16))

# ---------------------------------------------------------------- BGEO
def bgeo(r, n=None, prims=True):
    n = r.choice([0, 1, 2, 5, 12]) if n is None else n
    names = r.sample([w for w in POOL if w != "position"] + ["w" * 200], r.choice([0, 1, 2, 4]))
    A = [("position", VECTOR, 3, [])]
    for nm in names:
        t = r.choice([1, 2, 3, 4]); A.append((nm, t, r.choice([1, 2, 3, 5]), r.sample(STRS, r.randint(1, 5)) if t == STR else []))
    F = []
    for nm in r.sample(POOL, r.choice([0, 1, 3])):
        t = r.choice([1, 2, 3, 4]); c = r.choice([1, 2, 3]); ss = r.sample(STRS, r.randint(1, 4)) if t == STR else []
        F.append((nm, t, c, ss, cells(r, [(nm, t, c, ss)], 1)[0][0]))
    d = cells(r, A, n); B = ">"
    def descr(at):
        nm = dec(at[0]); o = struct.pack(">H", len(nm)) + nm + struct.pack(">Hi", at[2], {1: 5, 2: 0, 3: 1, 4: 4}[at[1]])
        if at[1] == STR: return o + struct.pack(">i", len(at[3])) + b"".join(struct.pack(">H", len(dec(x))) + dec(x) for x in at[3])
        return o + b"".join(struct.pack(">I", r.getrandbits(32)) for _ in range(at[2]))
    npr = r.choice([0, 1, 1, 3]) if prims else 0; strange = npr > 0 and r.random() < .25
    PA = [("pa%d" % k, r.choice([2, 3, 1, 4]), r.choice([1, 3]), ["s1", "s2"]) for k in range(r.choice([0, 1, 2]))] if npr else []
    o = b"BgeoV" + struct.pack(">9i", 5, n, npr, 0, 0, len(A) - 1, 0, len(PA), len(F))
    for a in A[1:]: o += descr(a)
    for k in range(n):
        for i, a in enumerate(A):
            o += b"".join(w32(v, B) for v in d[i][k])
            if i == 0: o += struct.pack(">f", 1)
    for a in PA: o += descr(a)
    for _ in range(npr):
        if strange and _ == npr - 1:          # a polygon or something else: what follows cannot be found
            o += struct.pack(">II", r.choice([1, 0x800, 0, 0x8001, 0xffffffff]), 3) + bytes(r.getrandbits(8) for _ in range(r.choice([0, 7, 40]))); F = []; break
        m = r.choice([0, 1, n, 2047, 2048, 2049, 5000]); o += struct.pack(">II", 0x8000, m) + b"\0\1" * m
        for a in PA: o += struct.pack(">I", 1) * a[2]
    for f in F: o += descr(f)
    for f in F: o += b"".join(w32(v, B) for v in f[4])
    return o + b"\x00\xff", desc(A, n, d, F)
# ---------------------------------------------------------------- files of a format using what Partio does not support
def alien(r):
    k = r.randrange(5); n = r.choice([0, 1, 3])
    if k == 0:
        o = b"BgeoV" + struct.pack(">9i", 5, n, 0, 0, 0, 2, 0, 0, 0) + struct.pack(">H", 4) + b"mass" + struct.pack(">Hi", 1, 0) + b"\0" * 4
        nm = b"n" * r.choice([0, 1, 9, 300]); return "BGEO", o + struct.pack(">H", len(nm)) + nm + struct.pack(">Hi", r.choice([1, 3]), r.choice([2, 2, 3, 6, 7, -1, 1000])) + bytes(r.getrandbits(8) for _ in range(r.choice([8, 60, 400])))
    if k == 1:
        o = struct.pack("<iid6f", 0x63747070, 0, float(n), *([0.0] * 6)) + struct.pack("<32f", *([0.0] * 32)) + struct.pack("<3f", 640, 480, 1)
        if r.random() < .5: return "PTC", o + struct.pack("<ii", 2, 4) + b"float a\n" + r.choice([b"string", b"Float", b"hpoint", b"", b"x" * 200]) + b" b\n" + b"\0" * r.choice([0, 200])
        return "PTC", o + struct.pack("<ii", 2, r.choice([0, 3, 5, -1])) + b"float a\ncolor b\n" + b"\0" * r.choice([0, 200])
    if k == 2: return "BIN", binf(r, n, r.choice([14, 15, 100, 32767]))[0]
    if k == 3:
        return "GEO", b"PGEOMETRY V5\nNPoints %d NPrims 0\nNPointGroups 0 NPrimGroups 0\nNPointAttrib 2 NVertexAttrib 0 NPrimAttrib 0 NAttrib 0\nPointAttrib\nmass 1 float 0\n" % n + \
            b"nm 1 " + r.choice([b"string", b"quaternion", b"Float", b"x" * 300]) + b" 0\n" + b"0 0 0 1 (1 2)\n" * n + b"beginExtra\nendExtra\n"
    return "PTC", struct.pack("<iid6f", 0x63747070, 1, float(n), *([0.0] * 6)) + struct.pack("<36f", *([0.0] * 36)) + struct.pack("<3f", 640, 480, 1) + struct.pack("<ii", 1, 1) + b"matrix4 m\n" + b"\0" * 90
def fnv(b):
    h = 1469598103934665603
    for c in b: h = ((h ^ c) * 1099511628211) & 0xffffffffffffffff
    return "%016x" % h
def digested(x):
    """a description with digests of the columns instead of their values"""
    return {"n": x["n"], "f": x["f"], "a": [dict(a, x=fnv(b"".join(w32(v, "<") for row in col for v in row))) for a, col in zip(x["a"], x["d"])]}
def bgeo_big(r):
    """indices in primitives change width with the number of points"""
    n = r.choice([65534, 65535, 65536, 65536, 65537]); A = [("position", VECTOR, 3, [])] + ([("id", INT, 1, [])] if r.random() < .5 else [])
    base = [[[rint(r) if a[1] == INT else rfl(r) for _ in range(a[2])] for _ in range(97)] for a in A]
    d = [[col[k % 97] for k in range(n)] for col in base]
    F = [("fx", INT, 1, [], [rint(r)]), ("fs", STR, 1, ["u", "v"], [1])][:r.randint(1, 2)]
    hd = lambda a: struct.pack(">H", len(a[0])) + a[0].encode() + struct.pack(">Hi", a[2], {1: 5, 2: 0, 3: 1, 4: 4}[a[1]]) + (struct.pack(">i", len(a[3])) + b"".join(struct.pack(">H", len(x)) + x.encode() for x in a[3]) if a[1] == STR else b"\0" * (4 * a[2]))
    npr = r.choice([0, 1, 2]); PA = [("pa", INT, 1, [])] * (r.random() < .5 and npr > 0)
    o = [b"BgeoV" + struct.pack(">9i", 5, n, npr, 0, 0, len(A) - 1, 0, len(PA), len(F))] + [hd(a) for a in A[1:]]
    recs = [b"".join(b"".join(w32(v, ">") for v in base[i][k]) + (struct.pack(">f", 1) if i == 0 else b"") for i in range(len(A))) for k in range(97)]
    o += [recs[k % 97] for k in range(n)] + [hd(a) for a in PA]
    for _ in range(npr):
        m = r.choice([0, 1, 3, n]); o.append(struct.pack(">II", 0x8000, m) + (b"\0\0\1\2" if n >= 65536 else b"\1\2") * m + b"\0\0\0\1" * len(PA))
    o += [hd(f) for f in F] + [w32(v, ">") for f in F for v in f[4]]
    return b"".join(o) + b"\x00\xff", digested(desc(A, n, d, F))

# ---------------------------------------------------------------- PRT
HALF = [0, 1, -1, 0.5, 2, 65504, -3.25, 0.099975586, 6.1035156e-05]
def prt(r, n=None):
    n = r.choice([1, 2, 5, 40]) if n is None else n
    chans = []; A = []; d = []; names = r.sample(["Position", "velocity", "ID", "Density", "a", "Ab", "x" * 31, "Color", "B"], r.choice([1, 2, 4, 7]))
    off = 0; order = list(range(len(names))); lay = []
    for nm in names:
        ty = r.randrange(11); ar = r.choice([1, 1, 3, 2, 4])
        if nm == "Position": ty, ar = r.choice([3, 4, 5]), 3
        chans.append([nm, ty, ar, 0])
    sizes = [2, 4, 8, 2, 4, 8, 2, 4, 8, 1, 1]; r.shuffle(order)
    for i in order: chans[i][3] = off; off += sizes[chans[i][1]] * chans[i][2]; off += r.choice([0, 0, 4]) if i != order[-1] else 0
    buf = [bytearray(off) for _ in range(n)]
    for nm, ty, ar, of in chans:
        t = INT if ty in (0, 1, 2, 6, 7, 8, 9, 10) else VECTOR if ar == 3 else FLOAT
        col = []
        for k in range(n):
            v = []
            for c in range(ar):
                code = "hiqefdHIQbB"[ty]
                if t == INT:
                    lo, hi = {0: (-2**15, 2**15 - 1), 1: (-2**31, 2**31 - 1), 2: (-2**31, 2**31 - 1), 6: (0, 2**16 - 1), 7: (0, 2**31 - 1), 8: (0, 2**31 - 1), 9: (-128, 127), 10: (0, 255)}[ty]
                    x = r.choice([lo, hi, 0, 1, r.randint(lo, hi)]); v.append(x)
                else:
                    x = r.choice(HALF) if ty == 3 else r.randint(-4000, 4000) / 4
                    if ty == 3: x = struct.unpack("<e", struct.pack("<e", x))[0]
                    v.append(fbits(x))
                struct.pack_into("<" + code, buf[k], of + sizes[ty] * c, x)
            col.append(v)
        A.append(((nm[0].lower() + nm[1:]), t, ar, [])); d.append(col)
    pad = r.choice([0, 0, 8]); hs = 56 + r.choice([0, 0, 16])
    o = b"\xc0PRT\r\n\x1a\n" + struct.pack("<I", hs) + b"Extensible Particle Format".ljust(32, b"\0") + struct.pack("<IQ", 1, n)
    o += b"\0" * (hs - 56) + struct.pack("<iii", 4, len(chans), 44 + pad)
    for nm, ty, ar, of in chans: o += nm.encode().ljust(32, b"\0") + struct.pack("<III", ty, ar, of) + b"\7" * pad
    return o + zlib.compress(b"".join(bytes(b) for b in buf), r.choice([1, 6, 9])), desc(A, n, d)

# ---------------------------------------------------------------- BIN
def binf(r, n=None, version=None):
    n = r.choice([0, 1, 3, 20]) if n is None else n; v = r.choice(list(range(1, 14))) if version is None else version
    A = [(a, t, c, []) for a, t, c in BINSCHEMA if not ((a == "vorticity" and v < 9) or (a == "normal" and v < 3) or (a == "neighbors" and v < 4) or (a == "uvw" and v < 5))]
    d = cells(r, A, n)
    # header: as laid out in memory by a C compiler
    o = struct.pack("<i250sh fifiii f3f3f3f", 0xFABADA, b"fluid", v, 1.0, 9, .04, 1, 24, n, .1, *([1.0] * 9))
    if v >= 7: o += struct.pack("<9f", *([0.0] * 6 + [1.0] * 3))
    for k in range(n):
        for i, a in enumerate(A):
            if a[0] == "id" and v >= 12: o += struct.pack("<q", d[i][k][0])
            else: o += b"".join(w32(x, "<") for x in d[i][k])
            if a[0] == "uvw": o += struct.pack("<h", 7)
    return o, desc(A, n, d)

# ---------------------------------------------------------------- PTC
def ptc(r, n=None):
    n = r.choice([0, 1, 3, 20]) if n is None else n; v = r.choice([0, 1, 2])
    ty = {"normal": (VECTOR, 3), "vector": (VECTOR, 3), "point": (VECTOR, 3), "color": (FLOAT, 3), "matrix": (FLOAT, 16), "float": (FLOAT, 1)}
    vs = [(r.choice(list(ty)), nm) for nm in r.sample(["_area", "Cs", "m", "foo", "g"], r.choice([0, 1, 2, 4]))]
    A = [("position", VECTOR, 3, []), ("normal", VECTOR, 3, []), ("radius", FLOAT, 1, [])] + [(nm, ty[t][0], ty[t][1], []) for t, nm in vs]
    d = cells(r, A, n); o = struct.pack("<iid6f", 0x63747070, v, float(n), *([0.0] * 6))
    if v >= 1: o += struct.pack("<4f", 1, 2, 3, 4)
    if v >= 2: o += struct.pack("<f", .5) + b"\xef\xbe\xad\xde" * 32
    o += struct.pack("<32f", *([0.0] * 32)) + struct.pack("<3f", 640, 480, 1) + struct.pack("<ii", len(vs), sum(ty[t][1] for t, _ in vs))
    for t, nm in vs: o += ("%s %s\n" % (t, nm)).encode()
    if v >= 1: o += struct.pack("<2f", 0, 0)
    for k in range(n):
        m = r.choice([1, 50, 400]); q = [r.randint(-m, m) for _ in range(3)]
        d[1][k] = [fbits(x / 4) for x in q]; L = math.sqrt(sum(x * x for x in q))
        if L == 0: phi = z = 65535
        else:
            phi = int((math.atan2(q[0], q[1]) / (2 * math.pi) + .5) * 65535 + .5); z = int((q[2] / L + 1) / 2 * 65535 + .5)
            if phi == 65535 and z == 65535: phi = 0
        o += b"".join(w32(x, "<") for x in d[0][k]) + struct.pack("<HH", phi, z) + w32(d[2][k][0], "<")
        for i in range(3, len(A)): o += b"".join(w32(x, "<") for x in d[i][k])
    return o, desc(A, n, d)

# ---------------------------------------------------------------- PDB
def pdb(r, bits, n=None):
    n = r.choice([0, 1, 3, 20]) if n is None else n
    A = []; chan = []
    for nm in r.sample([w for w in POOL if w != "%"] + ["skipped"], r.choice([1, 2, 4])):
        t = r.choice([VECTOR, FLOAT, INT, 0 if r.random() < .3 else FLOAT]); c = 3 if t == VECTOR else r.choice([1, 1, 2, 3]); chan.append((nm, t, c, []))
    full = cells(r, [(a[0], a[1] or INT, a[2], []) for a in chan], n)
    if bits == 32: o = struct.pack("<iHxxffII32sI", 670, 1, 1.0, 0.0, n, len(chan), b"", 0)
    else: o = struct.pack("<iHxxffII32sQ", 670, 1, 1.0, 0.0, n, len(chan), b"", 0)
    for i, (nm, t, c, _) in enumerate(chan):
        pt = {VECTOR: 1, FLOAT: 2, INT: 3, 0: 4}[t]
        o += struct.pack("<bxHbb", 0, 1, 0, 0)
        if bits == 32: o += struct.pack("<IiIIIbbxxIII", 0, pt, 0, 0, max(0, n - 1), 0, 0, 0, 0, 0)
        else: o += struct.pack("<QiIIIbbxxxxxxQQQ", 0, pt, 0, 0, max(0, n - 1), 0, 0, 0, 0, 0)
        o += dec(nm) + b"\0"
        o += struct.pack("<iIIi" + ("I" if bits == 32 else "Q"), pt, 4 * c, n, 1, 0)
        for k in range(n): o += b"".join(w32(x, "<") for x in full[i][k])
    keep = [i for i, a in enumerate(chan) if a[1]]
    return o, desc([chan[i] for i in keep], n, [full[i] for i in keep])

# ---------------------------------------------------------------- PDC
def pdc(r, n=None):
    n = r.choice([0, 1, 3, 20]) if n is None else n
    A = [(nm,) + r.choice([(VECTOR, 3), (FLOAT, 1)]) + ([],) for nm in r.sample(POOL, r.choice([0, 1, 3, 5]))]
    d = cells(r, A, n); o = b"PDC " + struct.pack(">iiiiii", 1, 1, 0, 0, n, len(A))
    for i, a in enumerate(A):
        o += struct.pack(">i", len(dec(a[0]))) + dec(a[0]) + struct.pack(">i", a[2] + 2)
        for k in range(n): o += b"".join(struct.pack(">d", bitsf(x)) for x in d[i][k])
    return o, desc(A, n, d)

# ---------------------------------------------------------------- PDA
def num(x):
    return "%.9g" % x
def pda(r, n=None):
    n = r.choice([0, 1, 3, 20]) if n is None else n
    A = [(nm,) + r.choice([(VECTOR, 3), (FLOAT, 1), (INT, 1)]) + ([],) for nm in r.sample(WORDS, r.choice([0, 1, 3, 5]))]
    d = cells(r, A, n, wide=False); sep = r.choice([" ", "  ", "\t"])
    o = "ATTRIBUTES\n" + "".join(" " + a[0] for a in A) + "\nTYPES\n" + "".join(" " + {VECTOR: "V", FLOAT: "R", INT: "I"}[a[1]] for a in A) + "\nNUMBER_OF_PARTICLES: %d\nBEGIN DATA\n" % n
    for k in range(n):
        o += sep.join(str(x) if isinstance(x, int) else num(bitsf(x)) for i in range(len(A)) for x in d[i][k]) + " \r\n"
    return o.encode(), desc(A, n, d)

# ---------------------------------------------------------------- PTS
def pts(r, cols=None, n=None):
    """lines of tokens, and the text"""
    cols = r.choice([3, 4, 6, 7, 8]) if cols is None else cols; n = r.choice([0, 1, 3, 20]) if n is None else n
    lines = []; text = []
    def tok(kind):
        if kind == "c": v = float(r.randint(0, 255)); t = r.choice(["%d" % v, "%.1f" % v])
        elif kind == "q": v = float(r.randint(-300, 300)); t = "%d" % v
        else: v = r.choice([r.randint(-4000, 4000) / 4, r.randint(-9, 9), 0.0, -0.0 if False else 0.0, 1e5, r.randint(-100000, 100000) / 64]); t = r.choice(["%r" % v, "%.9g" % v, "%e" % v if v == float("%e" % v) else "%r" % v])
        b = fbits(float(t)); return {"f": b, "i": int(float(t))}, t
    def row(m):
        k = {3: "xxx", 4: "xxxr", 6: "xxxccc", 7: "xxxrccc", 8: "xxxrqccc"}.get(m, "x" * m)
        z = [tok(c) for c in k]; return [a for a, _ in z], [b for _, b in z]
    lines.append(row(1)[0]); text.append(str(n) if r.random() < .7 else "some first line")
    for k in range(n):
        m = cols if k == 0 or r.random() < .8 else r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12])
        a, b = row(m); lines.append(a); text.append(r.choice(["", "", " ", "\t"]) + r.choice([" ", "  ", "\t"]).join(b) + r.choice(["", "", " ", "\r" if b else ""]))
        if r.random() < .02: a, b = row(9); b[0] = " " * 2000 + b[0]; lines.append(a); text.append(" ".join(b))
    o = "\n".join(text) + ("\n" if r.random() < .8 else "")
    return lines, o.encode()

# ---------------------------------------------------------------- Maya cache
def mc(r, n=None):
    n = r.choice([2, 3, 5, 20]) if n is None else n
    chans = [("node_position", "FVCA"), ("node_id", "DBLA")]
    for nm in r.sample(["velocity", "age", "radiusPP", "rgb_PP", "mass"], r.choice([0, 1, 3])):
        chans.append(("node_" + nm, r.choice(["FVCA", "DBLA"])))
    r.shuffle(chans); ch = []
    if r.random() < .5: chans.insert(r.randint(0, len(chans)), ("node_count", "ONE"))
    body = b""
    for nm, ty in chans:
        one = ty == "ONE"; ty = "DBLA" if one else ty
        m = 1 if one else n * (3 if ty == "FVCA" else 1)
        isid = nm == "node_id"
        v = [rint(r) if isid else fbits(r.randint(-4000, 4000) / 4) for _ in range(m)]
        ch.append({"n": nm, "ty": ty, "one": one, "v": v})
        raw = b"".join(struct.pack(">f", bitsf(x)) if ty == "FVCA" else struct.pack(">d", float(x) if isid else bitsf(x)) for x in v)
        nb = nm.encode() + b"\0"; pad = (-len(nb)) % 4
        cnt = m // 3 if ty == "FVCA" else m
        body += b"CHNM" + struct.pack(">I", len(nb)) + nb + b"\0" * pad + b"SIZE" + struct.pack(">II", 4, cnt) + ty.encode() + struct.pack(">I", len(raw)) + raw
    blk = b"MYCH" + body
    return ch, n, b"FOR4" + struct.pack(">i", 40) + struct.pack(">10i", *range(10)) + b"FOR4" + struct.pack(">i", len(blk)) + blk
