"""The tools: partjson (through its functions, its main, or a process of its own), and the
command line programs, whose output is taken apart here.  No expectation."""
import sys, os, json, subprocess, io, contextlib, re, hashlib
D = None        # the driver's globals
BIN = os.environ.get("VP_TOOLS", "")
TYPES = {"NONE": 0, "VECTOR": 1, "FLOAT": 2, "INT": 3, "INDEXEDSTR": 4}
def tool(name, args):
    env = {k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}
    p = subprocess.run([os.path.join(BIN, name)] + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=50)
    if p.returncode < 0 or p.returncode == 99: sys.stderr.write(p.stderr.decode(errors="replace")[-3000:])
    return p.returncode, p.stdout, p.stderr
def library(path):
    """what the library gives for the file"""
    with D["Caught"](2): x = D["partio"].read(path, False)
    return {"ok": False} if x is None else {"ok": True, "x": D["dump"](x)}
def order(path):
    with D["Caught"](2): x = D["partio"].read(path, False)
    if x is None: return {"a": [], "f": []}
    return {"a": [D["enc"](x.attributeInfo(i).name) for i in range(x.numAttributes())], "f": [D["enc"](x.fixedAttributeInfo(i).name) for i in range(x.numFixedAttributes())]}
def tojson(t):
    import partjson
    p = D["S"](t[1]); d = partjson.toJson(p)
    if t[3] == "text": d = json.loads(json.dumps(d))
    if t[3] == "pretty": d = json.loads(json.dumps(d, indent=2, sort_keys=True))
    with D["Caught"](2): q = partjson.fromJson(d)
    D["sets"][t[2]] = q; return {"x": D["dump"](q)}
def pj(t):
    import partjson
    a, b, flags = D["text"](t[1]), D["text"](t[2]), [x for x in t[3].split(",") if x]
    r = {"lib": library(a), "was": D["stat"](b)}
    args = flags + [a, b] if len(a) % 2 else [a] + flags + [b]
    if "process" in flags:
        args.remove("process"); r["rc"] = subprocess.run([sys.executable, os.path.join(os.path.dirname(partjson.__file__), "partjson.py")] + args, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=50).returncode
    else:
        old = sys.argv; sys.argv = ["partjson.py"] + args
        try:
            with D["Caught"](1), D["Caught"](2), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()): partjson.main()
            r["rc"] = 0
        except SystemExit as x: r["rc"] = x.code or 0
        except Exception: r["rc"] = 1
        finally: sys.argv = old
    r["out"] = D["stat"](b); r["order"] = order(b) if b.split(".")[-1] != "json" else {"a": [], "f": []}
    return r
def conv(t):
    a, b = D["text"](t[1]), D["text"](t[2]); lib = library(a); was = D["stat"](b)
    rc, out, err = tool("partconvert", [a, b])
    return {"rc": rc, "lib": lib, "was": was, "out": D["stat"](b), "msg": bool(err), "print": hashlib.md5(out).hexdigest()[:16]}
def num(s, a):
    try: return int(s) if a in (3, 4) else D["fhex"](float(s))
    except ValueError: return "<%s>" % s
def particle(lines):
    """the lines after Particle i:"""
    r = []
    for l in lines:
        m = re.match(r"^ *(\w+) +(\S+) +(.*?) *$", l)
        if not m: r.append({"n": "?", "t": 0, "v": []}); continue
        ty = TYPES.get(m.group(1), 0); b = m.group(3)
        if b.startswith("[ ") and b.endswith(" ]"): b = b[2:-2]
        v = []; s = []
        for x in b.split(", "):
            if ty == 4:
                tok, _, y = x.partition("="); v.append(num(tok, 3)); s.append(y[1:-1] if y[:1] == "'" and y[-1:] == "'" else "?" + y)
            else: v.append(num(x, ty))
        r.append({"n": D["enc"](m.group(2)), "t": ty, "v": v, "s": s})
    return r
def table(lines):
    r = []
    for l in lines:
        m = re.match(r"^(\w+) +(\d+) +(\S+) *$", l)
        if not m: break
        r.append({"n": D["enc"](m.group(3)), "t": TYPES.get(m.group(1), 0), "c": int(m.group(2))})
    return r
def info(t):
    a = D["text"](t[1]); lib = library(a); fl = [x for x in t[2:] if x[0] == "-"]; ix = [x for x in t[2:] if x[0] != "-"]
    rc, out, err = tool("partinfo", fl + [a] + ix if len(a) % 2 else [a] + ix + fl)
    r = {"rc": rc, "lib": lib, "n": -1, "a": [], "f": [], "fv": [], "strs": [], "parts": []}
    L = out.decode(errors="replace").split("\n"); k = 0
    m = re.match(r"Number of particles: +(-?\d+)", L[0]) if L else None
    if m: r["n"] = int(m.group(1))
    r["a"] = table(L[3:]); k = 3 + len(r["a"])
    while k < len(L):
        l = L[k]
        if l == "Fixed Attributes":
            r["f"] = table(L[k + 3:]); k += 3 + len(r["f"])
            for f in r["f"]:    # TYPE name v v, or for strings token then the table after each component
                m = re.match(r"^(\w+) +(\S+) *(.*)$", L[k]) if k < len(L) else None
                if not m: break
                if f["t"] != 4: r["fv"].append({"n": D["enc"](m.group(2)), "v": [num(x, f["t"]) for x in m.group(3).split()]}); k += 1; continue
                v = [num(m.group(3).strip(), 3)]; k += 1; s = []
                while k < len(L):
                    q = re.match(r"^ \d+ '(.*)'(?: (-?\d+))?$", L[k])
                    if not q: break
                    if len(v) == 1: s.append(D["enc"](q.group(1)))
                    if q.group(2) is not None: v.append(int(q.group(2)))
                    k += 1
                r["fv"].append({"n": D["enc"](m.group(2)), "v": v, "s": s})
        elif l == "INDEXED STRINGS:":
            k += 1
            while k < len(L):
                m = re.match(r"^(\S+) \((\d+)\) = \[(\])?$", L[k])
                if not m: break
                k += 1; s = []; more = False
                while not m.group(3) and k < len(L) and L[k] != "]":
                    if L[k] == "  ...": more = True
                    else: s.append(D["enc"](L[k][2:]))
                    k += 1
                if not m.group(3): k += 1
                r["strs"].append({"n": D["enc"](m.group(1)), "k": int(m.group(2)), "s": s})
        elif re.match(r"^Particle -?\d+:$", l):
            j = k + 1
            while j < len(L) and not L[j].startswith("-----") and L[j]: j += 1
            body = L[k + 1:j]; oor = body[:1] == ["OUT OF RANGE"]
            r["parts"].append({"i": int(l[9:-1]), "oor": oor, "v": [] if oor else particle(body)}); k = j
        else: k += 1
    return r
def attr(t):
    a, n = D["text"](t[1]), D["text"](t[2]); lib = library(a); rc, out, err = tool("partattr", [a, n] + t[3:]); v = []
    for l in out.decode(errors="replace").split("\n"):
        m = re.match(r"^(\S+)\[(\d+)\]=(.*)$", l)
        if not m: continue
        b = m.group(3); k = "s" if b[:1] == "'" else "f" if b[:1] == "(" else "i"
        v.append({"n": D["enc"](m.group(1)), "i": int(m.group(2)), "k": k, "v": [D["enc"](b[1:-1])] if k == "s" else [num(x, 2) for x in b[1:-1].split(",")] if k == "f" else [num(b, 3)]})
    return {"rc": rc, "lib": lib, "v": v}
def make(g):
    global D
    D = g; return {"json": tojson, "pj": pj, "conv": conv, "info": info, "attr": attr}
