#!/usr/bin/env python3
"""specmut.py [SUBSTRING]: changes the specification in one place at a time and model checks it; every change must make TLC report a violated property.
It shows that the properties of MCStore, MCFiles, MCCache, MCZip and MCGeom say something about Store, Files, System, Zip and Cluster."""
import sys, os, shutil, subprocess, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
ST = "MCStore"; FI = "MCFiles"; CA = "MCCache"; ZI = "MCZip"; GE = "MCGeom"
M = [
 # module changed, text, replacement, model, profile, mode, depth
 ("Store", "[] e.op = \"setF\"  -> UpdF(st, e.h, st.fv[e.k].i, [st.sets[e.h].F[st.fv[e.k].i] EXCEPT !.v = e.v])", "[] e.op = \"setF\"  -> UpdF(st, e.h, 1, [st.sets[e.h].F[1] EXCEPT !.v = e.v])", ST, "fixed", "paths", 4),
 ("Store", "IF IsPos(S, i) THEN Stale(WriteCell(S, i, e.i, e.v)) ELSE WriteCell(S, i, e.i, e.v)", "IF IsPos(S, i) THEN S ELSE WriteCell(S, i, 0, e.v)", ST, "grow", "paths", 4),
 ("Store", "F |-> MapNames(S.F, m), C |-> S.C,", "F |-> MapNames(S.F, <<>>), C |-> [i \\in DOMAIN S.C |-> Nil],", ST, "clone", "paths", 3),
 ("Store", "MapNames(as, m) == [i \\in DOMAIN as |-> [as[i] EXCEPT !.n = Mapped(m, as[i].n), !.p = Nil]]", "MapNames(as, m) == [i \\in DOMAIN as |-> [as[i] EXCEPT !.n = Mapped(m, as[i].n), !.s = <<>>, !.p = Nil]]", ST, "clone", "paths", 3),
 ("Store", "[] e.op = \"clone\" -> Set1(st, e.h2, CloneOf(st.sets[e.h], e.p, e.m))", "[] e.op = \"clone\" -> Set1(Set1(st, e.h2, CloneOf(st.sets[e.h], e.p, e.m)), e.h, Stale([st.sets[e.h] EXCEPT !.n = 0]))", ST, "clone", "paths", 3),
 ("Store", "ELSE IF Hits[k] # {} THEN Place(k+1, next, Append(acc, CHOOSE b \\in Hits[k] : TRUE))", "ELSE IF FALSE THEN acc", ST, "merge", "paths", 7),
 ("Store", "ELSE Place(k+1, next+1, Append(acc, next))", "ELSE Place(k+1, next+1, Append(acc, B.n))", ST, "merge", "paths", 6),
 ("Store", "k \\in 0..B.n-1 |-> Zero(a)]]", "k \\in 0..B.n-1 |-> [c \\in 1..a.c |-> 1]]]", ST, "merge2", "paths", 4),
 ("Store", "pl.at[x+1] = k /\\ \\A y \\in x+1..D.n-1 : pl.at[y+1] # k]", "pl.at[x+1] = k /\\ \\A y \\in 0..x-1 : pl.at[y+1] # k]", ST, "merge", "paths", 8),
 ("Store", "OneSided(B, D, ids) == {j \\in DOMAIN ids : IntAttr(B, ids[j]) # IntAttr(D, ids[j])}", "OneSided(B, D, ids) == {}", ST, "merge2", "paths", 5),
 ("Store", "THEN TokenIn(b, d.s[v[c]+1]) ELSE v[c]]", "THEN v[c] ELSE v[c]]", ST, "mergestr", "paths", 3),
 ("Store", "IN MergeF([B1 EXCEPT !.F[j] = [b EXCEPT !.v = w]], D, i+1)", "IN MergeF([B1 EXCEPT !.F[j] = [b EXCEPT !.v = IF @ = <<>> THEN w ELSE @]], D, i+1)", ST, "mergestr", "paths", 3),
 ("Files", "IN IF ~ok THEN st\n", "IN IF ~ok THEN [st EXCEPT !.fs = Put(@, Norm(e.path), fl)]\n", FI, "one", "cover", 1),
 ("Files", "[] e.op = \"gz\" -> [st EXCEPT !.fs = Put(@, Norm(e.path2), [FileAt(st, e.path) EXCEPT !.gz = TRUE])]", "[] e.op = \"gz\" -> [st EXCEPT !.fs = Put(@, Norm(e.path2), [FileAt(st, e.path) EXCEPT !.gz = TRUE, !.fmt = \"BGEO\"])]", FI, "one", "cover", 2),
 ("Files", "[] fl.gz /\\ rf = \"PRT\" -> \"fail\"", "", FI, "two", "cover", 3),
 ("Files", "[] Accepts(rf, fl.fmt) -> \"data\"", "[] rf = fl.fmt -> \"data\"", FI, "two", "cover", 2),
 ("Files", "[] rf \\in Signed -> \"fail\"\n         [] OTHER", "[] OTHER", FI, "two", "cover", 2),
 ("Files", "ELSE IF ~Reachable(p) \\/ ~Exists(st, p) THEN \"fail\"", "ELSE IF ~Exists(st, p) THEN \"none\"", FI, "one", "cover", 1),
 ("Files", "[] e.op = \"cp\" -> [st EXCEPT !.fs = Put(@, Norm(e.path2), FileAt(st, e.path))]", "[] e.op = \"cp\" -> [st EXCEPT !.fs = Put(Drop(@, Norm(e.path)), Norm(e.path2), FileAt(st, e.path))]", FI, "two", "cover", 2),
 ("Files", "[] e.op = \"unlink\" -> [st EXCEPT !.fs = Drop(@, Norm(e.path))]", "[] e.op = \"unlink\" -> [st EXCEPT !.fs = Nil]", FI, "two", "cover", 3),
 ("System", "!.cache = [p \\in {q \\in DOMAIN @ : @[q] # {e.h}} |-> @[p] \\ {e.h}]]", "!.cache = [p \\in {q \\in DOMAIN @ : e.h \\notin @[q]} |-> @[p]]]", CA, "deep", "paths", 5),
 ("System", "!.cache = [p \\in {q \\in DOMAIN @ : @[q] # {e.h}} |-> @[p] \\ {e.h}]]", "!.cache = [p \\in {q \\in DOMAIN @ : @[q] # {e.h}} |-> @[p]]]", CA, "deep", "paths", 5),
 ("System", "!.obj = Put(@, e.h2, IF H = {} THEN st.nobj + 1 ELSE st.obj[CHOOSE h \\in H : TRUE]),", "!.obj = Put(@, e.h2, st.nobj + 1),", CA, "deep", "paths", 4),
 ("System", "EXCEPT !.cache = Put(@, e.path, H \\cup {e.h2}),", "EXCEPT !.cache = Put(@, e.path, {e.h2}),", CA, "deep", "paths", 4),
 ("System", "Holders(st, p) == IF p \\in DOMAIN st.cache THEN st.cache[p] ELSE {}", "Holders(st, p) == IF Norm(p) \\in DOMAIN st.cache THEN st.cache[Norm(p)] ELSE {}", CA, "sort", "paths", 4),
 ("Store", "In == {k \\in 0..S.n-1 : d[k] < R * R}", "In == {k \\in 0..S.n-1 : d[k] <= R * R}", GE, "line", "up", 3),
 ("Store", "/\\ \\A k \\in In \\ ret : \\A j \\in DOMAIN ds : d[k] >= ds[j]", "", GE, "line", "up", 3),
 ("Store", "lo[c] <= S.K.pos[k][c] /\\ S.K.pos[k][c] <= hi[c]}", "lo[c] <= S.K.pos[k][c] /\\ S.K.pos[k][c] < hi[c]}", GE, "line", "up", 2),
 ("Store", "lo == [c \\in 1..3 |-> Min2(e.a[c], e.b[c])]", "lo == [c \\in 1..3 |-> e.a[c]]", GE, "line", "up", 2),
 ("Cluster", "In == {k \\in 0..S.n-1 : d[k] < e.R * e.R}", "In == {k \\in 0..S.n-1 : d[k] <= e.R * e.R}", GE, "chain", "up", 3),
 ("Cluster", "SubSeq(s, 1, Max2(0, Min2(e.conn, Len(s))))", "SubSeq(s, 1, Max2(0, Min2(e.conn + 1, Len(s))))", GE, "chain", "up", 3),
 ("Cluster", "LET s == ById(S, {k \\in F : Id(S, k) # Id(S, p)})", "LET s == ById(S, F \\ {p})", GE, "chain", "same", 3),
 ("Cluster", "Cardinality(X) = want - Cardinality(Sure)", "Cardinality(X) <= want - Cardinality(Sure)", GE, "chain", "up", 3),
 ("Cluster", "IN {Isqrt(x - eps) \\div 16, Isqrt(x + eps) \\div 16}", "IN {Isqrt(x - eps) \\div 16 + 2}", GE, "chain", "up", 1),
]
def one(k):
    mod, old, new, model, prof, mode, depth = M[k]
    src = open(os.path.join(HERE, "spec", mod + ".tla")).read()
    if src.count(old) != 1: return k, "text found %d times" % src.count(old)
    d = tempfile.mkdtemp(prefix="sm_", dir="/tmp")
    try:
        shutil.copytree(os.path.join(HERE, "spec"), d + "/s"); open(d + "/s/" + mod + ".tla", "w").write(src.replace(old, new))
        p = subprocess.run(["timeout", "900", "java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx3g", "-cp", JARS, "tlc2.TLC", "-workers", "1", "-metadir", d + "/m", "-config", model + ".cfg", "-noGenerateSpecTE", model + ".tla"],
                           cwd=d + "/s", env=dict(os.environ, PROFILE=prof, MODE=mode, DEPTH=str(depth)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        o = "\n".join(l for l in p.stdout.split("\n") if "PROG" not in l)
        for l in o.split("\n"):
            if l.startswith("Error:"): return k, "detected: " + l.strip()
        return k, "NOT DETECTED: " + o[-600:]
    finally: shutil.rmtree(d)
todo = [k for k in range(len(M)) if len(sys.argv) < 2 or sys.argv[1] in repr(M[k])]; bad = 0
with cf.ThreadPoolExecutor(3) as ex:
    for k, r in ex.map(one, todo):
        bad += not r.startswith("detected"); print("%s  %s -> %s  [%s %s]\n    %s" % (M[k][0], M[k][1][:100].replace("\n", " "), M[k][2][:100].replace("\n", " "), M[k][3], M[k][4], r), flush=True)
print("%d of %d detected" % (len(todo) - bad, len(todo))); sys.exit(bad > 0)
