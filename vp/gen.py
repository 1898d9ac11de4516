"""Random programs over the set API.  The bookkeeping here only keeps programs inside
the contract (which handles exist, how many components a value has); what the results
must be is the specification's business."""
import random
from vp.core import *

POOL = ["position", "velocity", "mass", "life", "id", "type", "name", "clan", "P", "v", "radius", "density", "a", "b", "long_attribute_name_that_is_long",
        enc("odd name"), enc("q\"uote\\back"), enc("%"), enc("é"), "%"]
STRS = ["a", "b", "ab", "foo", "bar", "%", enc("with space"), enc("q\"uo\\te"), enc("line\nbreak"), enc("tab\t"), enc("é∞"), enc("x" * 300), "0", "-1", "Foo", enc("a "), enc(" a")]
INTS = [0, 1, -1, 2, 7, 255, 256, 65535, 65536, 1000000, 2147483647, -2147483648, -1000, 16777216, 16777217, 305419896]
FLT = [fbits(x) for x in (0.0, 1.0, -1.0, 0.5, 2.25, -3.75, 100.0, 1e-3, 3.1415927, 1e10, -1e-10, 65536.0, 0.1)] + ["80000000", "7f800000", "ff800000", "7fc00000", "00000001", "7f7fffff", "3f800001"]

class Set:
    def __init__(s, h, kind): s.h = h; s.kind = kind; s.n = 0; s.A = []; s.F = []; s.tabs = {}; s.ftabs = {}; s.written = {}; s.sorted = False
class Attr:
    def __init__(s, name, t, c): s.n = name; s.t = t; s.c = c; s.ks = []; s.w = set(); s.strs = []; s.wv = {}; s.fv = False

class Gen:
    def __init__(s, rng, names=POOL, strs=STRS, kinds=("simple", "inter"), special_floats=True, maxc=6, small=False):
        s.r = rng; s.p = []; s.sets = {}; s.cnt = 0; s.names = names; s.strs = strs; s.kinds = kinds; s.sf = special_floats; s.maxc = maxc; s.small = small
    def fresh(s, pre): s.cnt += 1; return "%s%d" % (pre, s.cnt)
    def emit(self, **e): self.p.append(e); return e
    def fval(s):
        r = s.r
        if s.small: return fbits(r.randint(-40, 40) / 4)
        x = r.random()
        if x < .4: return r.choice(FLT if s.sf else FLT[:13])
        if x < .8: return fbits(r.randint(-4000, 4000) / 4)
        if x < .9 or not s.sf: return fbits(r.uniform(-1000, 1000))
        return "%08x" % r.getrandbits(32)
    def ival(s):
        r = s.r; x = r.random()
        return r.choice(INTS) if x < .5 else r.randint(-20, 20) if x < .8 else r.randint(-2**31, 2**31 - 1)
    def val(s, a):
        if a.t == STR:
            return [s.r.randrange(len(a.strs)) if a.strs else 0 for _ in range(a.c)]
        return [s.ival() if a.t == INT else s.fval() for _ in range(a.c)]
    # --- operations
    def new(s, kind=None):
        h = s.fresh("s"); k = kind or s.r.choice(s.kinds); s.emit(op="new", h2=h, kind=k); s.sets[h] = Set(h, k); return s.sets[h]
    def shape(s):
        t = s.r.choice([VECTOR, FLOAT, FLOAT, INT, INT, STR]); c = 3 if t == VECTOR and s.r.random() < .8 else s.r.choice([1, 1, 1, 2, 3, 4, s.maxc])
        if s.r.random() < .02: c = 40
        return t, c
    def add(s, S, name=None, t=None, c=None, fixed=False):
        name = name or s.r.choice(s.names)
        if t is None: t, c = s.shape()
        if name == "position" and not fixed and s.r.random() < .9: t, c = VECTOR, 3
        k = s.fresh("f" if fixed else "a"); L = S.F if fixed else S.A
        s.emit(op="addF" if fixed else "addA", h=S.h, k=k, n=name, t=t, c=c)
        if name in [a.n for a in L]: return None
        a = Attr(name, t, c); a.ks.append(k); L.append(a); return a
    def look(s, S, fixed=False):
        L = S.F if fixed else S.A; k = s.fresh("f" if fixed else "a")
        if s.r.random() < .5:
            nm = s.r.choice(s.names) if s.r.random() < .5 or not L else s.r.choice(L).n
            s.emit(op="nameF" if fixed else "nameA", h=S.h, k=k, n=nm)
            for a in L:
                if a.n == nm: a.ks.append(k)
        else:
            i = s.r.randint(-1, len(L) + 1); s.emit(op="idxF" if fixed else "idxA", h=S.h, k=k, i=i)
            if 0 <= i < len(L): L[i].ks.append(k)
    def grow(s, S, k=None):
        r = s.r
        if k is None and r.random() < .5: s.emit(op="addP", h=S.h); S.n += 1; return
        if k is None: k = r.choice([0, 1, 2, 3, 4, 5, 8, 10, 11, 17])
        s.emit(op="addPs", h=S.h, c=k); S.n += k
    def idx(s, S, beyond=.1):
        if S.n == 0 or s.r.random() < beyond: return S.n + s.r.choice([0, 0, 1, 5, 1000])
        return s.r.choice([0, S.n - 1, s.r.randrange(S.n), s.r.randrange(S.n)])
    def write(s, S, a, i=None, v=None):
        i = s.idx(S) if i is None else i
        v = s.val(a) if v is None else v
        if s.r.random() < .15 and len(v):
            j = s.r.randrange(a.c); s.emit(op="setc", h=S.h, k=s.r.choice(a.ks), i=i, j=j, v=v[j])
            if i < S.n and (a.c == 1): a.w.add(i)
        else:
            s.emit(op="set", h=S.h, k=s.r.choice(a.ks), i=i, v=v)
            if i < S.n: a.w.add(i)
    def read(s, S, a, i=None): s.emit(op="get", h=S.h, k=s.r.choice(a.ks), i=s.idx(S) if i is None else i, T=letter(a.t), c=a.c)
    def strop(s, S, fixed=False):
        L = [a for a in (S.F if fixed else S.A) if a.t == STR]
        if not L: return
        a = s.r.choice(L); k = s.r.choice(a.ks); x = s.r.random(); sfx = "F" if fixed else ""; w = s.r.choice(s.strs)
        if x < .5:
            s.emit(op="reg" + sfx, h=S.h, k=k, s=w)
            if w not in a.strs: a.strs.append(w)
        elif x < .75: s.emit(op="lku" + sfx, h=S.h, k=k, s=w)
        elif x < .9:
            tok = s.r.randint(-1, len(a.strs) + 1)
            if w in a.strs and s.r.random() < .7: w = "x%d" % s.r.randrange(50)
            s.emit(op="ren" + sfx, h=S.h, k=k, tok=tok, s=w)
            if 0 <= tok < len(a.strs): a.strs[tok] = w
        else: s.emit(op="strs" + sfx, h=S.h, k=k)
    def wfix(s, S):
        if S.F: a = s.r.choice(S.F); s.emit(op="setF", h=S.h, k=s.r.choice(a.ks), v=s.val(a)); a.fv = True
    def rfix(s, S):
        if S.F: a = s.r.choice(S.F); s.emit(op="getF", h=S.h, k=s.r.choice(a.ks), T=letter(a.t), c=a.c)
    def iterate(s, S):
        as_ = s.r.sample(S.A, min(len(S.A), s.r.choice([0, 1, 1, 2, 3]))) if S.A else []
        start = s.r.choice([-1, -1, 0, S.n // 2, max(0, S.n - 1), S.n, S.n + 1])
        obs = sorted({s.r.randrange(S.n + 1) for _ in range(3)} | ({S.n - 1} if S.n else set()))
        s.emit(op="iter", h=S.h, mode=s.r.choice(["c", "m", "C", "M"]), start=start, ks=[s.r.choice(a.ks) for a in as_], Ts=[letter(a.t) for a in as_], cs=[a.c for a in as_], obs=obs)
    def iterw(s, S):
        if not S.A: return
        a = s.r.choice(S.A); start = s.r.choice([-1, 0, S.n // 2, S.n])
        w = [[i, s.val(a)] for i in sorted({s.r.randrange(S.n) for _ in range(3)})] if S.n else []
        s.emit(op="iterw", h=S.h, k=s.r.choice(a.ks), c=a.c, start=start, w=w)
        for i, _ in w:
            if i >= start: a.w.add(i)
    def bulk(s, S):
        if not S.A or S.kind == "inter": return
        a = s.r.choice(S.A); m = s.r.choice([0, 1, 2, 5, 9])
        idx = [s.r.randrange(S.n) for _ in range(m)] if S.n else []
        srt = s.r.random() < .3
        if srt: idx.sort()
        if a.t in (FLOAT, VECTOR): s.emit(op=s.r.choice(["mul", "asf"]), h=S.h, k=s.r.choice(a.ks), T="f", c=a.c, srt=int(srt), idx=idx)
        elif a.c == 1 or s.r.random() < .5: s.emit(op="mul", h=S.h, k=s.r.choice(a.ks), T="i", c=a.c, srt=int(srt), idx=idx)
    def clone(s, S, parts=None):
        m = []
        if s.r.random() < .5:
            pool = [a.n for a in S.A + S.F] + list(s.names)
            for _ in range(s.r.randint(1, 3)):
                f = s.r.choice(pool)
                if f not in [x[0] for x in m]: m.append([f, s.r.choice(list(s.names) + ["position2", "renamed", "x2"])])
        mp = dict(m)
        for L in (S.A, S.F):
            nm = [mp.get(a.n, a.n) for a in L]
            if len(set(nm)) != len(nm): m = []; mp = {}
        h = s.fresh("s"); x = s.r.random()
        T = Set(h, "simple")
        if x < .25: s.emit(op="schema", h=S.h, h2=h, m=m)
        else:
            p = x < .85 if parts is None else parts
            s.emit(op="clone", h=S.h, h2=h, p=p, m=m)
        sch = x < .25
        for src, dst, kk in ((S.A, T.A, "a"), (S.F, T.F, "f")):
            if kk == "a" and not sch and not p: continue
            for i, a in enumerate(src):
                b = Attr(mp.get(a.n, a.n), a.t, a.c); b.strs = [] if sch else list(a.strs); b.w = set() if sch else set(a.w); b.fv = a.fv and not sch; dst.append(b)
                k = s.fresh(kk); s.emit(op="idxA" if kk == "a" else "idxF", h=h, k=k, i=i); b.ks.append(k)
        T.n = 0 if sch or not p else S.n
        s.sets[h] = T; return T
    def dump(s, S): s.emit(op="dump", h=S.h)
    def count(s, S): s.emit(op="cnt", h=S.h)
    def release(s, S): s.emit(op="rel", h=S.h); del s.sets[S.h]
    def complete(s, S):
        """writes every cell not yet written"""
        for a in S.A:
            if a.t == STR and not a.strs:
                w = s.r.choice(s.strs); s.emit(op="reg", h=S.h, k=a.ks[0], s=w); a.strs.append(w)
            for i in range(S.n):
                if i not in a.w: s.emit(op="set", h=S.h, k=a.ks[0], i=i, v=s.val(a)); a.w.add(i)
        for a in S.F:
            if a.t == STR and not a.strs:
                w = s.r.choice(s.strs); s.emit(op="regF", h=S.h, k=a.ks[0], s=w); a.strs.append(w)
            if not a.fv: s.emit(op="setF", h=S.h, k=a.ks[0], v=s.val(a)); a.fv = True
