"""P21: zip archives."""
from vp.check import *
from vp.gen import *
import io, zipfile, zlib
from vp import core

# ---------------------------------------------------------------- standard tools
def strict(b):
    """an independent reading of the archive: members, or None when a record contradicts another"""
    if len(b) < 22 or b[-22:-18] != b"PK\5\6": return None
    d0, d1, n0, n1, size, off, cl = struct.unpack("<HHHHIIH", b[-18:])
    if d0 or d1 or n0 != n1 or cl or off + size != len(b) - 22: return None
    r = []; p = off; at = 0
    for _ in range(n0):
        if b[p:p + 4] != b"PK\1\2": return None
        (vm, v, fl, cm, t, d, crc, cs, us, nl, xl, kl, dn, ia, ea, lo) = struct.unpack("<HHHHHHIIIHHHHHII", b[p + 4:p + 46])
        nm = b[p + 46:p + 46 + nl]; p += 46 + nl + xl + kl
        if lo != at or b[lo:lo + 4] != b"PK\3\4": return None
        v2, fl2, cm2, t2, d2, crc2, cs2, us2, nl2, xl2 = struct.unpack("<HHHHHIIIHH", b[lo + 4:lo + 30])
        if (fl2, cm2, crc2, cs2, us2, nl2) != (fl, cm, crc, cs, us, nl) or fl & 8 or b[lo + 30:lo + 30 + nl2] != nm: return None
        q = lo + 30 + nl2 + xl2; raw = b[q:q + cs]; at = q + cs
        if cm == 8:
            o = zlib.decompressobj(-15); x = o.decompress(raw)
            if not o.eof or o.unused_data: return None
        elif cm == 0: x = raw
        else: return None
        if len(x) != us or zlib.crc32(x) != crc: return None
        r.append([enc(nm), x.hex()])
    return r if p == len(b) - 22 and at == off else None
def standard(e, r):
    if "bytes" not in r: return r
    b = bytes.fromhex(r["bytes"]); why = ""
    try: m = strict(b)
    except Exception as x: m = None; why = repr(x)
    if m is None: return {"ok": False, "m": [], "why": "records of the archive " + why}
    try:
        z = zipfile.ZipFile(io.BytesIO(b))
        if z.testzip(): return {"ok": False, "m": [], "why": "zipfile"}
        m2 = [[enc(i.orig_filename.encode("utf-8" if i.flag_bits & 0x800 else "cp437")), z.read(i).hex()] for i in z.infolist()]
    except Exception as x: return {"ok": False, "m": [], "why": repr(x)}
    if m2 != m: return {"ok": False, "m": [], "why": "zipfile lists other members"}
    if shutil.which("unzip") and len(b) < 30000 and m:
        f = tempfile.NamedTemporaryFile(suffix=".zip", delete=False); f.write(b); f.close()
        p = subprocess.run(["unzip", "-tqq", f.name], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL); os.remove(f.name)
        if p.returncode not in (0, 1): return {"ok": False, "m": [], "why": "unzip -t gives %d" % p.returncode}
    return {"ok": True, "m": m}
core.POST["zstd"] = standard

# ---------------------------------------------------------------- archives made by standard tools
class Pipe(io.RawIOBase):
    """not seekable: zipfile then writes sizes after the data"""
    def __init__(s): s.b = bytearray()
    def writable(s): return True
    def write(s, x): s.b += bytes(x); return len(x)
def standard_archive(r, m, work=None):
    if r.random() < .15 and shutil.which("zip") and m and all(dec(n) != b".." and re.fullmatch(rb"[A-Za-z0-9_.]+(/[A-Za-z0-9_.]+)*", dec(n)) for n, _ in m):
        d = tempfile.mkdtemp(prefix="vpz_")
        for n, c in m:
            f = os.path.join(d, dec(n).decode()); os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "wb") as g: g.write(bytes.fromhex(c))
        a = os.path.join(d, "..out.zip"); cmd = ["zip", "-q", "-X", "-%d" % r.choice([0, 1, 6, 9])]
        out = r.random() < .4
        if out: b = subprocess.run(cmd + ["-"] + [dec(n).decode() for n, _ in m], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout
        else:
            subprocess.run(cmd + [a] + [dec(n).decode() for n, _ in m], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL); b = open(a, "rb").read()
        shutil.rmtree(d); return b
    seek = r.random() < .6; f = io.BytesIO() if seek else Pipe()
    with zipfile.ZipFile(f, "w") as z:
        for n, c in m:
            i = zipfile.ZipInfo("x", date_time=(1980 + r.randrange(100), 1 + r.randrange(12), 1 + r.randrange(28), r.randrange(24), r.randrange(60), r.randrange(60)))
            i.compress_type = r.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED]); i.external_attr = r.getrandbits(32); i.create_system = r.choice([0, 3])
            nm = dec(n)
            try: i.filename = nm.decode("utf-8")
            except UnicodeDecodeError: i.filename = nm.decode("cp437")
            if r.random() < .3: i.comment = bytes(r.getrandbits(8) for _ in range(r.choice([1, 40, 300])))
            if r.random() < .3: d = bytes(r.getrandbits(8) for _ in range(r.choice([0, 9, 200]))); i.extra = struct.pack("<HH", 0x7777, len(d)) + d
            z.writestr(i, bytes.fromhex(c), compresslevel=r.choice([None, 0, 1, 9]) if i.compress_type else None)
        if r.random() < .4: z.comment = bytes(r.getrandbits(8) for _ in range(r.choice([1, 30, 5000, 65535]))) if r.random() < .6 else b"about PK\5\6 and more PK\1\2 text" + b"." * r.choice([0, 5, 40])
    return bytes(f.b) if not seek else f.getvalue()

NAMES = ["a", "b", "dir/f.bgeo", "x.txt", "long" + "n" * 250, enc("with space"), "A", enc("é∞.bin"), "dir/", "..", enc("PK\5\6"), "0", enc("\\back"), "z" * 70]
def content(r, big=False):
    x = r.random()
    if x < .12: return b""
    n = r.choice([1, 2, 3, 4, 5, 20, 100, 507, 508, 509, 511, 512, 513, 1015, 1016, 1017, 1024, 1500, 4000]) if not big else r.choice([20000, 70000, 150000])
    y = r.random()
    if y < .3: b = bytes(r.getrandbits(8) for _ in range(n))
    elif y < .5: b = bytes([r.randrange(256)]) * n
    elif y < .7: b = (b"PK\5\6" + b"\0" * 18 + b"PK\3\4PK\1\2") * (n // 20 + 1)
    else: b = " ".join(str(r.randrange(100)) for _ in range(n // 2 + 1)).encode()
    return b[:n]
def chunks(r, b):
    p = 0; k = r.choice([1, 7, 100, 508, 511, 512, 1 << 20]) if len(b) < 3000 else r.choice([100, 512, 5000, 1 << 20]); o = []
    if k == 1 and len(b) > 60: k = 50
    while p < len(b):
        n = r.randint(1, k) if r.random() < .5 else k
        o.append(b[p:p + n]); p += n
    if r.random() < .2: o.insert(r.randint(0, len(o)), b"")
    return o

class ZGen(Gen):
    def write_zip(s, path, m):
        w = s.fresh("w"); s.emit(op="zopenw", path=path, w=w)
        for n, c in m:
            s.emit(op="zadd", w=w, n=n); how = s.r.choice("wwpfm")
            for k in chunks(s.r, bytes.fromhex(c)): s.emit(op="zput", w=w, c=k.hex(), how=s.r.choice("wpf") if how == "m" else how)
            s.emit(op="zend", w=w)
        s.emit(op="zclosew", w=w)
    def open_(s, path): rd = s.fresh("r"); s.emit(op="zopenr", path=path, rd=rd); return rd
    def read_member(s, rd, n, c, there):
        r = s.r; sm = s.fresh("m"); s.emit(op="zget", rd=rd, n=n, sm=sm)
        if not there: return
        x = r.random(); left = len(c) // 2
        if x < .4: s.emit(op="zread", sm=sm, k=-1, how=r.choice("rg"))
        elif x < .8:
            k = r.choice([1, 3, 100, 508, 511, 512, 1000]); k = max(k, left // 12)
            while left > 0 and r.random() < .95: n_ = r.choice([k, r.randint(0, k)]); s.emit(op="zread", sm=sm, k=n_, how=r.choice("rg")); left -= n_
            if r.random() < .7: s.emit(op="zread", sm=sm, k=r.choice([-1, left + 1]) if left > 0 else r.choice([-1, 1, 9]), how=r.choice("rg"))
        if r.random() < .2: s.emit(op="zread", sm=sm, k=-1, how="r")
        s.emit(op="zdone", sm=sm)
    def read_zip(s, rd, m, times=6):
        r = s.r
        if r.random() < .7: s.emit(op="zlist", rd=rd)
        for _ in range(times):
            if m and r.random() < .85: n, c = r.choice(m); s.read_member(rd, n, c, True)
            else:
                n = r.choice(NAMES + ["nosuch", "", "%"]) or "nosuch"; hit = [x for x in m if x[0] == n]
                s.read_member(rd, n, hit[0][1] if hit else "", bool(hit))
        if r.random() < .2: s.emit(op="zlist", rd=rd)
def members(r, big=False):
    k = r.choice([0, 1, 1, 2, 3, 5, 9]) if not big else r.choice([1, 2, 3])
    return [[n, content(r, big and j == 0).hex()] for j, n in enumerate(r.sample(NAMES, k))]

def finish(p):
    """the model's histories, then what is in the archive"""
    live = {}; 
    for e in p:
        if e["op"] == "zget" and e["r"]["ok"]: live["s"] = dict(op="zdone", sm="s")
        elif e["op"] == "zdone": live.pop("s", None)
        elif e["op"] == "zadd": live["e"] = dict(op="zend", w="w")
        elif e["op"] == "zend": live.pop("e", None)
        elif e["op"] == "zopenw": live["w"] = dict(op="zclosew", w="w")
        elif e["op"] == "zclosew": live.pop("w", None)
        elif e["op"] == "zopenr": live["r"] = dict(op="zcloser", rd="r")
        elif e["op"] == "zcloser": live.pop("r", None)
    q = [{k: v for k, v in e.items() if k != "r"} for e in p] + [live[k] for k in ("s", "e", "w", "r") if k in live]
    q += [dict(op="zstd", path="a.zip"), dict(op="zopenr", path="a.zip", rd="q"), dict(op="zlist", rd="q")]
    for n in "xyz":
        if any(e["op"] == "zadd" and e["n"] == n for e in p[max(i for i, e in enumerate(p) if e["op"] == "zopenw"):]):
            q += [dict(op="zget", rd="q", n=n, sm="qs"), dict(op="zread", sm="qs", k=-1, how="r"), dict(op="zdone", sm="qs")]
    return q

def progs(c, tag, n, f):
    ps = []
    for i in range(n):
        g = ZGen(random.Random("%s/%s/%d/%d" % (c.pid, tag, c.seed, i))); f(g, g.r); ps.append(g.p)
    return ps
def P21(c):
    N = lambda q, t: q if c.quick else t
    for prof, dq, dt in (("write", 7, 8), ("read", 6, 8)):
        ps = [p for p in c.maximal(c.model(prof, dq if c.quick else dt, module="MCZip", heap="6g"))]
        cap = N(2500, 30000)
        if len(ps) > cap: c.rng.shuffle(ps); ps = ps[:cap]
        c.conform([finish(p) for p in ps], "histories of the model MCZip/" + prof)
    def own(g, r):
        for p in r.sample(["a.zip", "b.zip", "./c.zip", "plain"], r.choice([1, 1, 2])):
            m = members(r, r.random() < .08); g.write_zip(p, m); g.emit(op="zstd", path=p)
            rd = g.open_(p); g.read_zip(rd, m, r.choice([2, 6, 15]))
            if r.random() < .7: g.emit(op="zcloser", rd=rd)
    c.conform(progs(c, "own", N(600, 6000), own), "archives written and read")
    def ext(g, r):
        m = members(r, r.random() < .1); b = standard_archive(r, m); g.emit(op="zgiven", path="g.zip", m=m, hex=b.hex())
        rd = g.open_("g.zip"); g.read_zip(rd, m, r.choice([3, 8, 15])); g.emit(op="zcloser", rd=rd)
    c.conform(progs(c, "std", N(500, 5000), ext), "archives of standard tools")
    def mix(g, r):
        """several archives open at once, failures in between"""
        A = {}; R = {}
        for _ in range(r.randint(4, 12)):
            x = r.random(); p = r.choice(["a.zip", "b.zip", "c.zip"])
            if x < .35 and p not in [v[0] for v in R.values()]: A[p] = members(r); g.write_zip(p, A[p])
            elif x < .45 and p not in [v[0] for v in R.values()]: A[p] = members(r); g.emit(op="zgiven", path=p, m=A[p], hex=standard_archive(r, A[p]).hex())
            elif x < .6 and p in A: R[g.open_(p)] = (p, A[p])
            elif x < .65: g.open_(r.choice(["nofile.zip", "nodir/a.zip"]))
            elif x < .7: g.emit(op="zopenw", path="nodir/q.zip", w=g.fresh("w"))
            elif x < .95 and R: rd = r.choice(list(R)); g.read_zip(rd, R[rd][1], 2)
            elif R: rd = r.choice(list(R)); R.pop(rd); g.emit(op="zcloser", rd=rd)
    c.conform(progs(c, "mix", N(300, 3000), mix), "several archives")
CHECKS = {"P21": P21}
