"""Command interpreter over the Python binding: pydriver.py SCRIPT OUT.

The counterpart of driver.cpp: the same commands, performed through the module partio, and
the same observations, plus commands only Python has.  It contains no expectation."""
import sys, os, json, struct, re, gc, shutil, zlib, hashlib, signal, ctypes, ctypes.util, subprocess, weakref
import partio
def dec(s):
    if s == "%": return b""
    return re.sub(rb"%([0-9a-f]{2})", lambda m: bytes([int(m.group(1), 16)]), s.encode())
SAFE = set(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-/")
def text(s): return dec(s).decode("utf-8")
def enc(s):
    if not isinstance(s, str): return "<%s>" % type(s).__name__
    return "".join(chr(c) if c in SAFE else "%%%02x" % c for c in s.encode("utf-8", "surrogateescape")) or "%"
def fhex(x):
    if not isinstance(x, float): return "<%s>" % type(x).__name__
    try: return "%08x" % struct.unpack("<I", struct.pack("<f", x))
    except OverflowError: return "<big>"
def val(t): return int(t[1:]) if t[0] == "i" else struct.unpack("<f", struct.pack("<I", int(t[1:], 16)))[0]
def isint(t): return t in (partio.INT, partio.INDEXEDSTR)
def comps(a, v):
    """what get gave for a value of attribute a"""
    if not isinstance(v, tuple): return ["<%s>" % type(v).__name__]
    if isint(a.type): return [x if type(x) is int else "<%s>" % type(x).__name__ for x in v]
    return [fhex(x) for x in v]

class Need(Exception): pass
sets = {}; ka = {}; kf = {}; extra = {}; marks = {}; kept = {}; home = None; runs = 0
def S(h):
    if h not in sets: raise Need("no set " + h)
    return sets[h]
def A(k):
    if k not in ka: raise Need("no handle " + k)
    return ka[k]
def F(k):
    if k not in kf: raise Need("no handle " + k)
    return kf[k]
def rec(a): return {"ok": True, "t": a.type, "c": a.count, "n": enc(a.name)}
NO = {"ok": False, "t": 0, "c": 0, "n": "%"}
def info(table, k, a):
    if a is None: return NO
    table[k] = a; return rec(a)
def added(table, k, a):
    if a.type == partio.NONE: return NO
    table[k] = a; return rec(a)
def strs(l): return [enc(x) for x in l]
def schema(p, count, at, tab):
    r = []
    for i in range(count):
        a = at(i); r.append({"n": enc(a.name), "t": a.type, "c": a.count, "s": strs(tab(a)) if tab and a.type == partio.INDEXEDSTR else []})
    return r
def fixed(p):
    r = schema(p, p.numFixedAttributes(), p.fixedAttributeInfo, p.fixedIndexedStrs)
    for i, x in enumerate(r): a = p.fixedAttributeInfo(i); x["v"] = comps(a, p.getFixed(a))
    return r
def dump(p):
    at = [p.attributeInfo(i) for i in range(p.numAttributes())]
    return {"n": p.numParticles(), "a": schema(p, len(at), p.attributeInfo, p.indexedStrs), "f": fixed(p),
            "d": [[comps(a, p.get(a, k)) for k in range(p.numParticles())] for a in at]}
def dumps(p, sc):
    at = [p.attributeInfo(i) for i in range(p.numAttributes())]
    def one(a, x):
        if isint(a.type): return x
        v = x * sc + .5
        return int(v // 1) if abs(v) < 2e9 else -1999999999
    return {"n": p.numParticles(), "a": schema(p, len(at), p.attributeInfo, p.indexedStrs), "d": [[[one(a, x) for x in p.get(a, k)] for k in range(p.numParticles())] for a in at]}
def headers(p):
    def lst(count, at):
        r = []
        for i in range(count):
            a = at(i); b = at(a.name)
            r.append({"n": enc(a.name), "t": a.type, "c": a.count, "k": b is not None and (a.name, a.type, a.count) == (b.name, b.type, b.count)})
        return r
    return {"n": p.numParticles(), "a": lst(p.numAttributes(), p.attributeInfo), "f": lst(p.numFixedAttributes(), p.fixedAttributeInfo)}
def items(s):
    """[kind:]items of a value given by a script: t/l/s/n/i then comma separated typed components"""
    kind, body = s[0], s[1:].split(",") if len(s) > 1 else []
    def one(x):
        k, y = x[0], x[1:]
        return int(y) if k == "i" else val(x) if k == "f" else struct.unpack("<d", struct.pack("<Q", int(y, 16)))[0] if k == "d" else None if k == "n" else text(y) if k == "s" else dec(y) if k == "b" else [1.0] if k == "l" else {} 
    v = [one(x) for x in body] if kind not in "snifd" else []
    return tuple(v) if kind == "t" else v if kind == "l" else {"s": "abc", "n": None, "i": 3, "f": 1.5, "d": {0: 1.0, 1: 2.0, 2: 3.0}}[kind] if kind in "snifd" else iter(v)
def raised(f):
    try: return {"exc": "", "v": f()}
    except Exception as x: return {"exc": type(x).__name__, "v": []}
class Caught:
    """what was printed to a file descriptor meanwhile"""
    def __init__(s, fd): s.fd = fd; s.text = b""
    def __enter__(s):
        libc.fflush(None); s.old = os.dup(s.fd); s.tmp = os.open(os.path.join(home, "..", "caught%d" % s.fd), os.O_RDWR | os.O_CREAT | os.O_TRUNC); os.dup2(s.tmp, s.fd); return s
    def __exit__(s, *a):
        libc.fflush(None); os.dup2(s.old, s.fd); os.lseek(s.tmp, 0, 0)
        while True:
            b = os.read(s.tmp, 65536)
            if not b: break
            s.text += b
        os.close(s.tmp); os.close(s.old)
libc = ctypes.CDLL(None)
try: poisoned = libc.__asan_address_is_poisoned; poisoned.argtypes = [ctypes.c_void_p]; poisoned.restype = ctypes.c_int
except AttributeError: poisoned = None
def gunzip(b):
    """strict: one gzip member, nothing after it"""
    z = zlib.decompressobj(31)
    try: o = z.decompress(b)
    except zlib.error: return None, False
    return o, z.eof and not z.unused_data
def stat(p):
    r = {"ex": os.path.isfile(p), "gz": False, "valid": False, "dig": "none"}
    if r["ex"]:
        b = open(p, "rb").read(); r["gz"] = b[:2] == b"\x1f\x8b"
        if r["gz"]:
            o, r["valid"] = gunzip(b)
            b = b if o is None else o
        r["dig"] = hashlib.md5(b).hexdigest()[:16]
    return r
def call(f, msgs):
    """read functions: either the plain one, whose messages go to standard error, or the one that returns them"""
    with Caught(2) as c: x = f()
    if msgs: return x[0], bool(x[1])
    return x, bool(c.text)
def names(t, at):
    n = int(t[at]); m = {}
    for i in range(n):
        a, b = text(t[at + 1 + 2 * i]), text(t[at + 2 + 2 * i])
        if i % 3 == 1: a = a.encode()
        if i % 3 == 2: b = b.encode()
        m[a] = b
    return m
count = 0
def run(t):
    global home, runs, count
    op = t[0]; count += 1
    if op == "reset":
        sets.clear(); ka.clear(); kf.clear(); extra.clear(); marks.clear(); kept.clear(); gc.collect()
        home = base + "/r"
        if runs: os.chdir("/"); shutil.rmtree(home)
        runs += 1; os.makedirs(home); os.chdir(home); return 0
    if op == "new": sets[t[1]] = partio.create(); return 0
    if op == "rel":
        h = t[1]; S(h); del sets[h]
        if extra.get(h): sets[h] = extra[h].pop()["x"][0]
        if count % 3 == 0: gc.collect()
        return 0
    if op == "pyref":   # one more reference, of some sort
        d = {"x": (S(t[1]),)}; d["self"] = d; extra.setdefault(t[1], []).append(d); return 0
    if op == "addA": return added(ka, t[2], S(t[1]).addAttribute(text(t[3]), int(t[4]), int(t[5])))
    if op == "addF": return added(kf, t[2], S(t[1]).addFixedAttribute(text(t[3]), int(t[4]), int(t[5])))
    if op == "nameA": return info(ka, t[2], S(t[1]).attributeInfo(text(t[3])))
    if op == "nameF": return info(kf, t[2], S(t[1]).fixedAttributeInfo(text(t[3])))
    if op in ("idxA", "idxF"):
        p = S(t[1])
        try: a = (p.attributeInfo if op == "idxA" else p.fixedAttributeInfo)(int(t[3]))
        except IndexError: return NO
        if a is None: return {"exception": "None for an index"}
        return info(ka if op == "idxA" else kf, t[2], a)
    if op == "cnt": p = S(t[1]); return [p.numParticles(), p.numAttributes(), p.numFixedAttributes()]
    if op == "addP": return S(t[1]).addParticle()
    if op == "addPs": S(t[1]).addParticles(int(t[2])); return 0
    if op == "set":
        v = [val(x) for x in t[4:]]; S(t[1]).set(A(t[2]), int(t[3]), tuple(v) if count % 2 else v); return 0
    if op == "setF":
        v = [val(x) for x in t[3:]]; S(t[1]).setFixed(F(t[2]), tuple(v) if count % 2 else v); return 0
    if op == "pyset": p = S(t[1]); a = A(t[2]); v = items(t[4]); return raised(lambda: (p.set(a, int(t[3]), v), [])[1])
    if op == "pysetF": p = S(t[1]); a = F(t[2]); v = items(t[3]); return raised(lambda: (p.setFixed(a, v), [])[1])
    if op == "pyget": p = S(t[1]); a = A(t[2]); i = int(t[3]); return raised(lambda: comps(a, p.get(a, i)))
    if op == "getF": return comps(F(t[2]), S(t[1]).getFixed(F(t[2])))
    if op in ("reg", "lku"): p = S(t[1]); return (p.registerIndexedStr if op == "reg" else p.lookupIndexedStr)(A(t[2]), text(t[3]))
    if op in ("regF", "lkuF"): p = S(t[1]); return (p.registerFixedIndexedStr if op == "regF" else p.lookupFixedIndexedStr)(F(t[2]), text(t[3]))
    if op == "ren": S(t[1]).setIndexedStr(A(t[2]), int(t[3]), text(t[4])); return 0
    if op == "renF": S(t[1]).setFixedIndexedStr(F(t[2]), int(t[3]), text(t[4])); return 0
    if op == "strs": return strs(S(t[1]).indexedStrs(A(t[2])))
    if op == "strsF": return strs(S(t[1]).fixedIndexedStrs(F(t[2])))
    if op in ("clone", "schema"):
        m = names(t, 4 if op == "clone" else 3); p = S(t[1])
        f = (lambda *a: partio.clone(p, t[3] == "1", *a)) if op == "clone" else (lambda *a: partio.cloneSchema(p, *a))
        c = f(m) if m or count % 3 == 0 else f(None) if count % 3 == 1 else f()
        if c is None: return False
        sets[t[2]] = c; return True
    if op == "merge": partio.merge(S(t[1]), S(t[2]), *[text(x) for x in t[4:]]); return 0
    if op == "sort": S(t[1]).sort(); return 0
    if op in ("box", "pynear"):
        sc = int(t[2]); f = lambda at: tuple(float(x) / sc for x in t[at:at + 3])
        if op == "box": return list(S(t[1]).findPoints(f(3), list(f(6))))
        r = S(t[1]).findNPoints(f(3), int(t[6]), int(t[7]) / sc)
        def unit(d): d = d * sc * sc; return int(d) if d == d // 1 and abs(d) < 2e9 else -1
        return {"p": [x[0] for x in r], "d": [unit(x[1]) for x in r]}
    if op == "pyquery":
        p = S(t[1]); a = items(t[3]); b = items(t[4])
        return raised(lambda: [len(p.findPoints(a, b) if t[2] == "box" else p.findNPoints(a, 3, 2.0)) * 0])
    if op == "pymisc":     # calls that must raise
        p = S(t[1]); a = A(t[3])
        f = {"get-none": lambda: p.get(None, 0), "set-none": lambda: p.set(None, 0, (1,)), "reg-none": lambda: p.registerIndexedStr(None, "x"),
             "get-fixed": lambda: p.get(a, "x"), "wrong-set": lambda: partio.merge(p, "x"), "clone-str": lambda: partio.clone("x", True), "sort-arg": lambda: p.sort(1),
             "info-list": lambda: p.attributeInfo([]), "name-none": lambda: p.attributeInfo(None), "file-none": lambda: partio.readCachedVerbose(None, False), "str-none": lambda: p.registerIndexedStr(a, None), "add-none": lambda: p.addAttribute(None, partio.FLOAT, 1), "write-none": lambda: partio.write("x.bgeo", None), "fixed-for-particle": lambda: p.getFixed(a),
             "add-type": lambda: p.addAttribute("zz", "VECTOR", 3), "add-count": lambda: p.addAttribute("zz", partio.FLOAT, 1.5), "read-none": lambda: partio.read(3), "finfo": lambda: p.fixedAttributeInfo(10 ** 6)}[t[2]]
        r = raised(f); r["v"] = []; return r
    if op == "cluster":
        c = partio.computeClustering(S(t[1]), int(t[3]), float(t[4]), float(t[5]), int(t[6]), float(t[7]))
        if c is None: return {"ok": False}
        sets[t[2]] = c; return {"ok": True, "x": dump(c), "s": dumps(c, 64)}
    if op == "dump": return dump(S(t[1]))
    if op == "hdrs": return headers(S(t[1]))
    if op == "write":
        with Caught(2) as c:
            if t[3] == "0" and t[4] == "1" and count % 2: partio.write(text(t[2]), S(t[1]))
            else: partio.write(text(t[2]), S(t[1]), t[3] == "1", t[4] == "1")
        return dict(stat(text(t[2])), msg=bool(c.text))
    if op == "fstat": return stat(text(t[1]))
    if op == "read":
        m = t[3] == "1" and count % 2; p = text(t[1])
        x, msg = call((lambda: partio.readVerbose(p)) if m else (lambda: partio.read(p, t[3] == "1")), m)
        if x is None: return {"ok": False, "msg": msg}
        sets[t[2]] = x; return {"ok": True, "msg": msg, "x": dump(x)}
    if op == "hdr":
        m = t[3] == "1" and count % 2; p = text(t[1])
        x, msg = call((lambda: partio.readHeadersVerbose(p)) if m else (lambda: partio.readHeaders(p, t[3] == "1")), m)
        if x is None: return {"ok": False, "msg": msg}
        sets[t[2]] = x; return {"ok": True, "msg": msg, "x": headers(x)}
    if op == "cached":
        x, msg = call(lambda: partio.readCachedVerbose(text(t[1]), t[3] == "1"), True)
        if x is None: return {"ok": False, "msg": msg, "same": []}
        same = [h for h, y in sets.items() if int(y.this) == x.ptr()]
        sets[t[2]] = x; return {"ok": True, "msg": msg, "same": same, "x": dump(x)}
    if op == "put": open(text(t[1]), "wb").write(b"" if t[2] == "-" else bytes.fromhex(t[2])); return 0
    if op == "cp": b = open(text(t[1]), "rb").read(); open(text(t[2]), "wb").write(b); return 0
    if op == "cut":
        b = open(text(t[1]), "rb").read(); n = max(0, min(len(b), len(b) * int(t[3]) // int(t[4]) + int(t[5]))); open(text(t[2]), "wb").write(b[:n]); return {"len": n, "of": len(b)}
    if op == "mkdir": os.mkdir(text(t[1])); return 0
    if op == "unlink":
        p = text(t[1])
        if os.path.isdir(p): os.rmdir(p)
        elif os.path.exists(p): os.remove(p)
        return 0
    if op == "mark": marks[t[2]] = int(S(t[1]).this); return 0
    if op == "freed": gc.collect(); return bool(poisoned(marks[t[1]]))
    if op == "print":
        with Caught(1) as c: next(getattr(partio, f) for f in ("print", "_print", "print_") if hasattr(partio, f))(S(t[1]))
        return hashlib.md5(c.text).hexdigest()[:16]
    if op == "pytname": return enc(partio.TypeName(int(t[1])))
    if op == "pyattr": return rec(A(t[2]) if t[1] == "a" else F(t[2]))
    if op == "pyres":      # a result kept by the program
        p = S(t[2]); w = t[3]; k = t[4]
        kept[t[1]] = {"get": lambda: p.get(A(k), int(t[5])), "getF": lambda: p.getFixed(F(k)), "strs": lambda: p.indexedStrs(A(k)), "strsF": lambda: p.fixedIndexedStrs(F(k)), "name": lambda: [A(k).name], "nameF": lambda: [F(k).name]}[w]()
        return hashlib.md5(repr(kept[t[1]]).encode()).hexdigest()[:16]
    if op == "pyagain": return hashlib.md5(repr(kept[t[1]]).encode()).hexdigest()[:16]
    if op in TOOLS: return TOOLS[op](t)
    raise Need("unknown command " + op)
import pytools
TOOLS = pytools.make(globals())

base = os.path.abspath(sys.argv[2]) + ".d"
def main():
    out = open(sys.argv[2], "w")
    for l in open(sys.argv[1]):
        t = l.split()
        if not t: continue
        signal.alarm(60)
        try: r = run(t)
        except Need as x: r = {"need": enc(str(x))}
        except Exception as x: r = {"exception": enc("%s: %s" % (type(x).__name__, x))}
        out.write(json.dumps(r) + "\n"); out.flush()
    run(["reset"])
    os.chdir("/"); shutil.rmtree(base, ignore_errors=True)
    out.write('"end"\n'); out.close()
main()
