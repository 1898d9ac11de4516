"""P01-P08: in-memory particle sets."""
from vp.check import *
from vp.gen import *
from vp.observe import observe

def mixed(rng, n, weights, kinds, **kw):
    g = Gen(rng, kinds=kinds, **kw); g.new()
    ops = list(weights); ws = [weights[o] for o in ops]
    for _ in range(n):
        if not g.sets: g.new()
        S = rng.choice(list(g.sets.values())); o = rng.choices(ops, ws)[0]
        if o == "addA": g.add(S)
        elif o == "addF": g.add(S, fixed=True)
        elif o == "look": g.look(S)
        elif o == "lookF": g.look(S, True)
        elif o == "grow": g.grow(S)
        elif o == "big": g.grow(S, rng.choice([50, 99, 100, 101, 150, 200, 511, 1000]))
        elif o == "write" and S.A: g.write(S, rng.choice(S.A))
        elif o == "read" and S.A: g.read(S, rng.choice(S.A))
        elif o == "str": g.strop(S)
        elif o == "strF": g.strop(S, True)
        elif o == "wfix": g.wfix(S)
        elif o == "rfix": g.rfix(S)
        elif o == "iter": g.iterate(S)
        elif o == "iterw": g.iterw(S)
        elif o == "bulk": g.bulk(S)
        elif o == "clone": g.clone(S)
        elif o == "dump": g.dump(S)
        elif o == "count": g.count(S)
        elif o == "release" and len(g.sets) > 1: g.release(S)
        elif o == "new" and len(g.sets) < 4: g.new()
        elif o == "tname": g.emit(op="tname", t=rng.randrange(5))
    return g

def randoms(c, n, length, weights, kinds, final=True, **kw):
    ps = []
    for i in range(n):
        g = mixed(random.Random("%s/%d/%d" % (c.pid, c.seed, i)), length, weights, kinds, **kw)
        if final:
            for S in g.sets.values(): g.dump(S); g.count(S)
        ps.append(g.p)
    return ps

def models(c, profs, light=False):
    for prof, dq, dt, mode in profs:
        d = dq if c.quick else dt
        ps = c.model(prof, d, mode)
        if mode == "paths": ps = c.maximal(ps)
        c.conform([observe(p, light=light) for p in ps], "model %s depth %d (%s)" % (prof, d, mode))

def P01(c):
    models(c, [("grow", 4, 5, "paths")])
    W = dict(addA=6, look=4, grow=8, write=14, read=10, count=2, dump=2, iter=1, new=1, release=.3, str=1, clone=.5, tname=.3, big=.4)
    c.conform(randoms(c, 400 if c.quick else 2500, 60, W, ("simple",)), "random histories")
    W2 = dict(addA=3, look=1, grow=4, big=3, write=30, read=25, count=1)
    c.conform(randoms(c, 40 if c.quick else 300, 160, W2, ("simple",), final=False), "large random histories")

def P02(c):
    models(c, [("growi", 4, 5, "paths"), ("stri", 3, 4, "paths"), ("strfi", 3, 4, "paths"), ("fixedi", 4, 5, "paths")], light=False)
    W = dict(addA=6, addF=4, look=3, lookF=2, grow=8, write=12, read=8, count=2, dump=2, iter=3, iterw=2, new=1, release=.3, str=4, strF=3, wfix=4, rfix=4, clone=1)
    c.conform(randoms(c, 400 if c.quick else 2500, 60, W, ("inter",)), "random histories on interleaved storage")
    W2 = dict(addA=3, addF=1, look=1, grow=4, big=3, write=30, read=25, count=1, wfix=2, rfix=2)
    c.conform(randoms(c, 40 if c.quick else 300, 160, W2, ("inter",), final=False), "large random histories")

def P03(c):
    models(c, [("str", 3, 4, "paths"), ("strf", 3, 4, "paths"), ("stri", 3, 3, "paths"), ("strfi", 3, 3, "paths")])
    W = dict(addA=2, addF=1, str=14, strF=8, new=.5, clone=.7, grow=1, write=2, look=1, lookF=1)
    ps = []
    for i in range(300 if c.quick else 2000):
        rng = random.Random("P03/%d/%d" % (c.seed, i))
        g = Gen(rng, kinds=("simple", "inter")); S = g.new()
        for k in range(rng.randint(1, 2)): g.add(S, name=["name", "clan"][k], t=STR, c=rng.choice([1, 1, 2]))
        g.add(S, name="fname", t=STR, c=1, fixed=True)
        pool = STRS if rng.random() < .5 else ["w%d" % k for k in range(rng.choice([4, 40]))]
        g.strs = pool
        for _ in range(rng.choice([20, 60, 120])):
            g.strop(S, rng.random() < .35)
            if rng.random() < .03 and len(g.sets) < 3:
                T = g.clone(S)
                if T and T.A: S = rng.choice([S, T])
        for T in g.sets.values(): g.dump(T)
        ps.append(g.p)
    c.conform(ps, "random string table histories")
    c.conform(randoms(c, 100 if c.quick else 600, 60, W, ("simple", "inter")), "random histories with strings")

def P04(c):
    models(c, [("fixed", 5, 6, "paths"), ("fixedi", 4, 5, "paths")])
    W = dict(addA=4, addF=6, look=1, lookF=4, grow=4, write=5, read=3, count=1, strF=5, str=1, wfix=10, rfix=9, dump=2, clone=.5, new=.5)
    c.conform(randoms(c, 400 if c.quick else 2500, 60, W, ("simple", "inter")), "random histories with fixed attributes")

def P05(c):
    models(c, [("grow", 3, 4, "paths"), ("growi", 3, 4, "paths")])
    W = dict(addA=4, grow=7, big=.5, write=6, read=2, iter=12, iterw=8, bulk=8, addF=1, wfix=1, clone=.3, new=.5)
    c.conform(randoms(c, 400 if c.quick else 2500, 50, W, ("simple", "inter")), "random histories with iteration")
    # integers as floats: exact below 2^24
    ps = []
    for i in range(60 if c.quick else 400):
        rng = random.Random("P05f/%d/%d" % (c.seed, i)); g = Gen(rng, kinds=("simple",)); S = g.new()
        a = g.add(S, name="i", t=INT, c=rng.choice([1, 2, 3, 5])); b = g.add(S, name="s", t=STR, c=rng.choice([1, 3])); g.add(S, name="x", t=FLOAT, c=2)
        for w in ("u", "v", "w"): g.emit(op="reg", h=S.h, k=b.ks[0], s=w); b.strs.append(w)
        g.grow(S, rng.choice([1, 5, 30]))
        for k in range(S.n):
            g.emit(op="set", h=S.h, k=a.ks[0], i=k, v=[rng.choice([rng.randint(-2**24, 2**24), rng.randint(-9, 9)]) for _ in range(a.c)]); a.w.add(k)
        g.complete(S)
        for x in S.A:
            for _ in range(3):
                idx = [rng.randrange(S.n) for _ in range(rng.choice([0, 1, 4, 20]))]; srt = rng.random() < .3
                if srt: idx.sort()
                g.emit(op="asf", h=S.h, k=x.ks[0], T=letter(x.t), c=x.c, srt=int(srt), idx=idx)
                g.emit(op="mul", h=S.h, k=x.ks[0], T=letter(x.t), c=x.c, srt=int(srt), idx=idx)
        ps.append(g.p)
    c.conform(ps, "bulk reads and float conversion")

def P06(c):
    models(c, [("clone", 3, 4, "paths")])
    W = dict(addA=4, addF=3, look=2, lookF=1, grow=6, write=8, read=4, str=5, strF=3, wfix=4, rfix=3, clone=5, dump=3, release=2.5, count=1, iter=1, iterw=1)
    c.conform(randoms(c, 500 if c.quick else 3000, 60, W, ("simple", "inter"), maxc=16), "random histories with clones")

def merge_prog(rng):
    g = Gen(rng, names=["id", "id2", "position", "mass", "name", "clan", "a", "b", "wide"], kinds=("simple", "simple", "inter"))
    B, D = g.new(), g.new()
    shapes = {"id": (INT, 1), "id2": (INT, 1), "position": (VECTOR, 3), "mass": (FLOAT, 1), "name": (STR, 1), "clan": (STR, 2), "a": (INT, 3), "b": (FLOAT, 2), "wide": (FLOAT, rng.choice([4, 33, 40]))}
    for S in (B, D):
        nm = [x for x in shapes if rng.random() < .6]; rng.shuffle(nm)
        for x in nm: g.add(S, x, *shapes[x])
        for x in [x for x in ("f1", "f2", "f3") if rng.random() < .6]: g.add(S, x, *{"f1": (FLOAT, 2), "f2": (STR, 1), "f3": (STR, 2)}[x], fixed=True)
        g.grow(S, rng.choice([0, 1, 2, 3, 5, 12, 13]))
    for S in (B, D):
        for _ in range(rng.choice([0, 3, 6])): g.strop(S, False); g.strop(S, True)
    # identifiers: the key over the common identifier attributes is unique in the base, anything in the delta
    ids = rng.choice([[], ["id"], ["id"], ["id2"], ["id", "id2"], ["id2", "id"], ["id", "nosuch"], ["mass"], ["id", "name"]])
    space = rng.choice([3, 6, 20])
    common = [x for x in ids if x in ("id", "id2") and all(x in [a.n for a in S.A] for S in (B, D))]
    for S in (B, D):
        used = set()
        att = [a for a in S.A if a.n in ("id", "id2")]
        for k in range(S.n):
            for _ in range(100):
                v = tuple(rng.randrange(-1, space) if rng.random() < .95 else rng.choice(INTS) for _ in att)
                key = tuple(x for a, x in zip(att, v) if a.n in common)
                if S is D or key not in used: break
            else: v = tuple(1000 + k for _ in att); key = tuple(x for a, x in zip(att, v) if a.n in common)
            used.add(key)
            for a, x in zip(att, v): g.emit(op="set", h=S.h, k=a.ks[0], i=k, v=[x]); a.w.add(k)
    if rng.random() < .8: g.complete(B)
    if rng.random() < .8: g.complete(D)
    else:
        for a in D.A:
            if a.t == STR and not a.strs: g.emit(op="reg", h=D.h, k=a.ks[0], s="only"); a.strs.append("only")
        for a in D.A:  # string cells must hold tokens
            if a.t == STR:
                for k in range(D.n):
                    if k not in a.w: g.emit(op="set", h=D.h, k=a.ks[0], i=k, v=g.val(a)); a.w.add(k)
        for a in D.F:
            if a.t == STR:
                if not a.strs: g.emit(op="regF", h=D.h, k=a.ks[0], s="only"); a.strs.append("only")
                g.emit(op="setF", h=D.h, k=a.ks[0], v=g.val(a)); a.fv = True
    for S in (B, D): g.dump(S)
    # base and delta may carry the identifiers differently: keep base keys unique
    carried = [x for x in ids if x in [a.n for a in B.A] and x in [a.n for a in D.A]]
    g.emit(op="merge", h=B.h, d=D.h, ids=ids)
    g.dump(B); g.dump(D); g.count(B)
    if rng.random() < .3:
        g.emit(op="new", h2="sx", kind="simple")
        g.emit(op="rel", h=D.h); g.dump(B); g.emit(op="rel", h="sx")
    return g.p, carried

def P07(c):
    models(c, [("merge", 5, 6, "paths"), ("merge2", 5, 6, "paths"), ("mergestr", 4, 5, "paths")], light=True)
    ps = []
    for i in range(500 if c.quick else 4000): ps.append(merge_prog(random.Random("P07/%d/%d" % (c.seed, i)))[0])
    c.conform(ps, "random merges")

def cloud(g, S, rng, n, kind, scale):
    pts = []
    for k in range(n):
        if kind == "grid": v = [rng.randrange(-3, 4) for _ in range(3)]
        elif kind == "line": v = [k if rng.random() < .9 else rng.randrange(n), 0, 5]
        elif kind == "same": v = [2, 2, 2] if rng.random() < .7 else [rng.randrange(3)] * 3
        elif kind == "plane": v = [rng.randrange(-200, 200), rng.randrange(-200, 200), 7]
        elif kind == "clusters":
            q = rng.randrange(4); v = [300 * q + rng.randrange(-9, 10), -200 * q + rng.randrange(-9, 10), rng.randrange(-9, 10)]
        else: v = [rng.randrange(-400, 401) for _ in range(3)]
        pts.append(v)
    if kind == "line" and rng.random() < .5: rng.shuffle(pts)
    a = [x for x in S.A if x.n == "position"][0]
    for k, v in enumerate(pts): g.emit(op="set", h=S.h, k=a.ks[0], i=k, v=[fbits(x / scale) for x in v]); a.w.add(k)
    return pts
def queries(g, S, rng, pts, scale, m, boxes=True):
    for _ in range(m):
        base = rng.choice(pts) if pts and rng.random() < .7 else [rng.randrange(-400, 401) for _ in range(3)]
        if boxes and rng.random() < .45:
            o = rng.choice(pts) if pts and rng.random() < .5 else [base[j] + rng.randrange(-60, 61) for j in range(3)]
            pre = [rng.randrange(1000) for _ in range(rng.choice([0, 0, 1, 4]))]
            g.emit(op="box", h=S.h, scale=scale, a=base, b=o, pre=pre)
        else:
            q = [base[j] + rng.choice([0, 0, 1, -1, rng.randrange(-20, 21)]) for j in range(3)]
            R = rng.choice([1, 2, 3, 5, 10, 40, 100, 900, 2000]); N = rng.choice([1, 1, 2, 3, 4, 5, 8, 10, 30, max(1, S.n - 1), max(1, S.n), S.n + 1, S.n + 5])
            g.emit(op="near", h=S.h, scale=scale, q=q, N=N, R=R)

def arrangements(c, profs):
    """every arrangement of MCGeom, with every query or clustering of its family"""
    with cf.ThreadPoolExecutor(3) as ex: ps = [p for r in ex.map(lambda a: c.model(a[0], a[1] if c.quick else a[2], a[3], module="MCGeom", tag=a[3]), profs) for p in r]
    c.conform(ps, "every small arrangement", scale=4)

def P08(c):
    scale = 4
    arrangements(c, [("line", 4, 6, "up"), ("axis", 5, 8, "up"), ("plane", 3, 5, "up"), ("cube", 2, 3, "up")])
    ps = []
    sizes = list(range(0, 20)) + [31, 32, 33, 63, 64, 65, 100]
    reps = 2 if c.quick else 10
    for rep in range(reps):
        for n in sizes:
            for kind in ("grid", "random", "line", "same", "plane", "clusters"):
                rng = random.Random("P08/%d/%d/%d/%s" % (c.seed, rep, n, kind)); g = Gen(rng, kinds=("simple",)); S = g.new()
                if rng.random() < .5: g.add(S, name="id", t=INT, c=1)
                g.add(S, name="position", t=VECTOR, c=3); g.add(S, name="mass", t=FLOAT, c=1)
                g.grow(S, n); pts = cloud(g, S, rng, n, kind, scale); g.complete(S)
                if rng.random() < .3: queries(g, S, rng, pts, scale, 2)
                g.dump(S); g.emit(op="sort", h=S.h); g.dump(S)
                queries(g, S, rng, pts, scale, 14)
                if rng.random() < .3:   # change and sort again
                    g.grow(S, rng.choice([1, 3])); pts = cloud(g, S, rng, S.n, kind, scale); g.emit(op="sort", h=S.h); queries(g, S, rng, pts, scale, 6)
                if rng.random() < .2:
                    T = g.clone(S, True)
                    if T and g.p[-1]["op"] != "schema": pass
                ps.append(g.p)
    c.conform(ps, "sorted queries, small sets", scale=scale)
    ps = []
    for i in range(24 if c.quick else 200):
        rng = random.Random("P08b/%d/%d" % (c.seed, i)); g = Gen(rng, kinds=("simple",)); S = g.new()
        g.add(S, name="position", t=VECTOR, c=3); n = rng.choice([127, 128, 255, 300, 511, 700, 1000]); g.grow(S, n)
        pts = cloud(g, S, rng, n, rng.choice(["grid", "random", "plane", "clusters", "line"]), scale); g.emit(op="sort", h=S.h)
        queries(g, S, rng, pts, scale, 30); ps.append(g.p)
    c.conform(ps, "sorted queries, larger sets", scale=scale)
    # what cannot be sorted finds nothing
    ps = []
    for i in range(12):
        rng = random.Random("P08c/%d/%d" % (c.seed, i)); g = Gen(rng, kinds=("simple",), small=True); S = g.new()
        if i % 3: g.add(S, name="position", t=[VECTOR, FLOAT, VECTOR][i % 3], c=[3, 3, 2][i % 3])
        g.grow(S, 5); g.complete(S); g.emit(op="sort", h=S.h) if S.A and i % 3 == 1 else None
        g.dump(S); queries(g, S, rng, [], scale, 4); ps.append(g.p)
    c.conform(ps, "queries without a tree", scale=scale)

CHECKS = dict(P01=P01, P02=P02, P03=P03, P04=P04, P05=P05, P06=P06, P07=P07, P08=P08)
