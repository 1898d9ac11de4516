"""Appends observations of everything observable to a program."""
from vp.core import *
def observe(prog, strings=("p", "q", "%", "zz"), light=False):
    sets = {}; n = [0]
    for e in prog:
        o = e["op"]
        if o == "new": sets[e["h2"]] = {"kind": e["kind"], "A": [], "F": [], "n": 0}
        elif o == "rel": sets.pop(e["h"], None)
        elif o in ("addA", "addF"):
            L = sets[e["h"]]["A" if o == "addA" else "F"]
            if e["n"] not in [x[0] for x in L]: L.append((e["n"], e["t"], e["c"]))
        elif o in ("addP", "addPs"):
            if sets[e["h"]]["n"] is not None: sets[e["h"]]["n"] += e.get("c", 1)
        elif o == "clone":
            S = sets[e["h"]]; mp = dict((a, b) for a, b in e["m"]); f = lambda L: [(mp.get(x[0], x[0]), x[1], x[2]) for x in L]
            sets[e["h2"]] = {"kind": "simple", "A": f(S["A"]) if e["p"] else [], "F": f(S["F"]), "n": S["n"] if e["p"] else 0}
        elif o == "schema":
            S = sets[e["h"]]; mp = dict((a, b) for a, b in e["m"]); f = lambda L: [(mp.get(x[0], x[0]), x[1], x[2]) for x in L]
            sets[e["h2"]] = {"kind": "simple", "A": f(S["A"]), "F": f(S["F"]), "n": 0}
        elif o == "merge":
            B, D = sets[e["h"]], sets[e["d"]]
            B["A"] += [x for x in D["A"] if x[0] not in [y[0] for y in B["A"]]]; B["F"] += [x for x in D["F"] if x[0] not in [y[0] for y in B["F"]]]
            B["n"] = None
    r = list(prog); q = 0
    for h, S in sets.items():
        r.append({"op": "cnt", "h": h}); r.append({"op": "dump", "h": h})
        if light: continue
        for L, fx in ((S["A"], ""), (S["F"], "F")):
            for i, (nm, t, c) in enumerate(L):
                q += 1; k = "ob%d" % q
                r.append({"op": "idx" + (fx or "A"), "h": h, "k": k, "i": i})
                r.append({"op": "name" + (fx or "A"), "h": h, "k": k, "n": nm})
                if t == STR:
                    r.append({"op": "strs" + fx, "h": h, "k": k})
                    for w in strings: r.append({"op": "lku" + fx, "h": h, "k": k, "s": w})
                if fx: r.append({"op": "getF", "h": h, "k": k, "T": letter(t), "c": c})
                elif S["n"] is not None:
                    r.append({"op": "get", "h": h, "k": k, "i": max(0, S["n"] - 1), "T": letter(t), "c": c})
                    r.append({"op": "get", "h": h, "k": k, "i": S["n"], "T": letter(t), "c": c})
                    r.append({"op": "iter", "h": h, "mode": "cmCM"[q % 4], "start": -1, "ks": [k], "Ts": [letter(t)], "cs": [c], "obs": [0, max(0, S["n"] - 1)] if S["n"] > 1 else [0]})
            r.append({"op": "idx" + (fx or "A"), "h": h, "k": "obx", "i": len(L)})
            r.append({"op": "name" + (fx or "A"), "h": h, "k": "obx", "n": "nosuch"})
    return r
