"""P09: clustering."""
from vp.props_store import *

def cluster_prog(rng, n, kind):
    g = Gen(rng, kinds=("simple",), small=True); S = g.new()
    names = [("position", VECTOR, 3), ("id", INT, 1)] + rng.sample([("mass", FLOAT, 2), ("clan", STR, 1), ("x", INT, 3), ("vel", VECTOR, 3), ("rad", FLOAT, 1)], rng.randint(0, 4))
    rng.shuffle(names)
    for nm, t, c in names: g.add(S, nm, t, c)
    if rng.random() < .3: g.add(S, "fx", FLOAT, 2, fixed=True)
    g.grow(S, n)
    att = dict((a.n, a) for a in S.A)
    if "clan" in att:
        for w in ("u", "v", "w"): g.emit(op="reg", h=S.h, k=att["clan"].ks[0], s=w); att["clan"].strs.append(w)
    ids = rng.sample(range(-50, 200), n) if rng.random() < .7 else rng.sample([7, 5, 3, 2147483647, -2147483648, 16777217, 0, -1, 1000000] + list(range(100, 150)), n)
    if rng.random() < .1: ids = [ids[0]] * n if n else []
    if rng.random() < .3: ids.sort(reverse=rng.random() < .5)
    for k in range(n):
        if kind == "line": p = [8 * k + rng.randrange(0, 2), 0, 0]
        elif kind == "axis": p = [0, 0, 0]; p[rng.randrange(3)] = 4 * rng.randrange(0, 12)
        elif kind == "same": p = [4, 4, 4] if rng.random() < .6 else [rng.randrange(8)] * 3
        elif kind == "pyth": p = [3 * rng.randrange(0, 12), 4 * rng.randrange(0, 12), 0]
        else: p = [rng.randrange(-40, 41) for _ in range(3)]
        g.emit(op="set", h=S.h, k=att["position"].ks[0], i=k, v=[fbits(x / 4) for x in p]); att["position"].w.add(k)
        g.emit(op="set", h=S.h, k=att["id"].ks[0], i=k, v=[ids[k]]); att["id"].w.add(k)
    g.complete(S); g.dump(S)
    for _ in range(rng.choice([1, 2, 3])):
        h = g.fresh("c")
        ev = dict(op="cluster", h=S.h, h2=h, nn=rng.choice([1, 2, 3, 4, 5, 8, 12, 30]), R=rng.choice([4, 8, 10, 20, 40, 60, 80]), ins=rng.choice([-20, 0, 0, 10, 25, 37, 50, 75, 90, 100, 130]),
                  conn=rng.choice([0, 1, 2, 3, 5, 9, 20]), den=rng.choice([0, 1, 2, 4, 7, 12, 24]))
        g.emit(**ev); g.dump(S)
        if rng.random() < .4: g.emit(**dict(ev, h2=h + "b"))
        if rng.random() < .3: g.emit(op="dump", h=h)
        if rng.random() < .3: g.emit(op="cnt", h=h)
    if rng.random() < .4: queries(g, S, rng, [], 4, 2)
    return g.p

def P09(c):
    arrangements(c, [("chain", 3, 4, "down"), ("bent", 2, 4, "up"), ("bent", 3, 3, "same")])
    ps = []
    for rep in range(12 if c.quick else 80):
        for n in list(range(0, 10)) + [13, 20]:
            rng = random.Random("P09/%d/%d/%d" % (c.seed, rep, n))
            ps.append(cluster_prog(rng, n, rng.choice(["line", "axis", "same", "pyth", "rand", "rand"])))
    # not clusterable
    for i in range(30):
        rng = random.Random("P09n/%d/%d" % (c.seed, i)); g = Gen(rng, kinds=("simple", "inter"), small=True); S = g.new()
        for nm, t, cc in [("position", *[(VECTOR, 3), (FLOAT, 3), (VECTOR, 2), (INT, 3), (None, 0)][i % 5]), ("id", *[(INT, 1), (INT, 2), (FLOAT, 1), (STR, 1), (None, 0), (INT, 1)][i % 6])]:
            if t is not None: g.add(S, nm, t, cc)
        g.add(S, "m", FLOAT, 1); g.grow(S, rng.choice([0, 1, 4])); g.complete(S)
        g.emit(op="cluster", h=S.h, h2="c", nn=3, R=40, ins=50, conn=3, den=8); g.dump(S); ps.append(g.p)
    c.conform(ps, "random clusterings", scale=4)
CHECKS = dict(P09=P09)
