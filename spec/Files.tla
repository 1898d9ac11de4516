------------------------------- MODULE Files -------------------------------
(***************************************************************************)
(* Particle files: what a file holds after it was written (or put there by *)
(* somebody else), and what reading it back gives.                         *)
(*                                                                         *)
(*  st.fs : path -> file                                                   *)
(*     k   "data"  a file of format fmt holding the set S                  *)
(*         "cut"   the first `len` bytes of such a file (raw: of the       *)
(*                 compressed bytes, so nothing is known of the content)   *)
(*         "dir"   a directory                                             *)
(*         "any"   some bytes nothing is promised about                    *)
(*         "alien" a file of its format using what Partio has no support   *)
(*                 for                                                     *)
(*     gz  compressed                                                      *)
(*     dig digest of its uncompressed bytes, "%" if not known              *)
(* A path is relative to a fresh directory; paths below "nodir" cannot be  *)
(* opened.                                                                 *)
(***************************************************************************)
EXTENDS Cluster

CONSTANTS G6(_),      \* bit pattern of a float -> that of the nearest 6 digit decimal
          I2F(_),     \* an integer -> bit pattern of the nearest float
          Nrm(_),     \* bit pattern of a float in [-2,2] -> its value in 1/8192
          D255(_)     \* bit pattern of x -> bit pattern of x/255

(* ------------------------------------------------------------- names     *)
Ch(s, i) == SubSeq(s, i, i)
RECURSIVE LastDot(_, _)
LastDot(s, i) == IF i <= 0 THEN 0 ELSE IF Ch(s, i) = "." THEN i ELSE LastDot(s, i - 1)
After(s, i) == SubSeq(s, i + 1, Len(s))
EndsGz(p) == LET d == LastDot(p, Len(p)) IN d > 0 /\ After(p, d) = "gz"
Ext(p) == LET d == LastDot(p, Len(p))
              b == SubSeq(p, 1, d - 1)
              d2 == LastDot(b, Len(b))
          IN IF d = 0 THEN "" ELSE IF After(p, d) # "gz" THEN After(p, d)
             ELSE IF d2 = 0 THEN "" ELSE After(b, d2)
Norm(p) == IF Len(p) > 2 /\ SubSeq(p, 1, 2) = "./" THEN After(p, 2) ELSE p
Reachable(p) == ~(Len(p) >= 6 /\ SubSeq(p, 1, 6) = "nodir/")
ByteLen(s) ==                            \* length of a percent-encoded string
  IF s = "" \/ s = "%" THEN 0 ELSE Len(s) - 2 * Cardinality({i \in 1..Len(s) : Ch(s, i) = "%"})

ReaderOf(x) ==
  CASE x \in {"bgeo", "bhclassic", "itbl", "atbl"} -> "BGEO"
    [] x \in {"geo", "hclassic"} -> "GEO"
    [] x = "pdb" -> "PDB" [] x = "pdb32" -> "PDB32" [] x = "pdb64" -> "PDB64"
    [] x = "pda" -> "PDA" [] x = "pdc" -> "PDC" [] x = "prt" -> "PRT"
    [] x \in {"ptc", "ptf"} -> "PTC" [] x = "bin" -> "BIN" [] x = "pts" -> "PTS" [] x = "mc" -> "MC"
    [] OTHER -> "NO"
WriterOf(x) ==
  CASE x = "rib" -> "RIB" [] x = "pdb" -> "PDB32" [] x \in {"pts", "mc"} -> "NO" [] OTHER -> ReaderOf(x)
Signed == {"BGEO", "PDB", "PDB32", "PDB64", "PDC", "PRT", "PTC", "BIN", "PDA", "MC"}
Pdb == {"PDB", "PDB32", "PDB64"}
Accepts(rf, f) == rf = f \/ (rf = "PDB" /\ f \in Pdb)
ImportOnly == {"MC", "PTS"}

(* ------------------------------------------------- content of a file     *)
Lowers == "abcdefghijklmnopqrstuvwxyz"
Uppers == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerFirst(s) == LET hit == {i \in 1..26 : Len(s) > 0 /\ Ch(s, 1) = Ch(Uppers, i)} IN
                 IF hit = {} THEN s ELSE Ch(Lowers, CHOOSE i \in hit : TRUE) \o After(s, 1)
\* what a reader gives for an attribute: n, t, c, s as in a set; src the attribute
\* of the file's set its values come from; m how: "x" the same bits, "g" the same to
\* six digits, "n" the same number, "N" the same direction, "k" constant v, "i" the
\* particle's index, "?" not specified
Out(a, nm, t, c, s, src, m) == [n |-> nm, t |-> t, c |-> c, s |-> s, src |-> src, m |-> m, v |-> <<>>]
Keep(S, i, m) == LET a == S.A[i] IN Out(a, a.n, a.t, a.c, a.s, i, IF IsInt(a.t) THEN "x" ELSE m)
AsInts(S, i, m) == LET a == S.A[i] IN Out(a, a.n, IF a.t = STR THEN INT ELSE a.t, a.c, <<>>, i, IF IsInt(a.t) THEN "x" ELSE m)
Others(S, nms) == SelectSeq([i \in DOMAIN S.A |-> i], LAMBDA i : S.A[i].n \notin nms)
Map(q, Op(_)) == [j \in DOMAIN q |-> Op(q[j])]
PdaKeeps(a) == a.c = (IF a.t = VECTOR THEN 3 ELSE 1)
PdcOut(S, i) == LET a == S.A[i] IN
  IF a.t = VECTOR THEN Out(a, a.n, VECTOR, 3, <<>>, i, IF a.c = 3 THEN "x" ELSE "?")
  ELSE Out(a, a.n, FLOAT, 1, <<>>, i, IF a.c # 1 THEN "?" ELSE IF IsInt(a.t) THEN "n" ELSE "x")
PrtOut(S, i) == LET a == S.A[i] IN
  Out(a, LowerFirst(a.n), IF a.t = INT THEN INT ELSE IF a.c = 3 THEN VECTOR ELSE FLOAT, a.c, <<>>, i, "x")
PtcOwn == {"position", "normal", "radius"}
PtcKeeps(a) == ~IsInt(a.t) /\ a.c \in {1, 3, 16}
PtcOut(S, i) == LET a == S.A[i] IN Out(a, a.n, FLOAT, a.c, <<>>, i, "x")
Konst(nm, t, c, v) == [n |-> nm, t |-> t, c |-> c, s |-> <<>>, src |-> 0, m |-> "k", v |-> v]
F0 == "00000000"  F1 == "3f800000"
V0 == <<F0, F0, F0>>
BinSchema == <<
  Konst("position", VECTOR, 3, V0), Konst("velocity", VECTOR, 3, V0), Konst("force", VECTOR, 3, V0),
  Konst("vorticity", VECTOR, 3, V0), Konst("normal", VECTOR, 3, V0), Konst("neighbors", INT, 1, <<0>>),
  Konst("uvw", VECTOR, 3, V0), Konst("age", FLOAT, 1, <<F0>>), Konst("isolationTime", FLOAT, 1, <<F1>>),
  Konst("viscosity", FLOAT, 1, <<F1>>), Konst("density", FLOAT, 1, <<F1>>), Konst("pressure", FLOAT, 1, <<F1>>),
  Konst("mass", FLOAT, 1, <<F1>>), Konst("temperature", FLOAT, 1, <<F1>>),
  [Konst("id", INT, 1, <<0>>) EXCEPT !.m = "i"] >>
BinNames == {BinSchema[j].n : j \in DOMAIN BinSchema}
BinOut(S, j) == LET b == BinSchema[j]  i == NameIdx(S.A, b.n) IN
  IF i = 0 THEN b ELSE [b EXCEPT !.src = i, !.m = "x"]

\* what reading a file of format f holding S gives: attributes and fixed attributes
ReadBack(f, S) ==
  CASE f = "BGEO" -> [a |-> Map(<<PosIdx(S)>> \o Others(S, {"position"}), LAMBDA i : Keep(S, i, "x")), f |-> S.F]
    [] f = "GEO" -> [a |-> Map(<<PosIdx(S)>> \o Others(S, {"position"}), LAMBDA i : Keep(S, i, "g")), f |-> <<>>]
    [] f = "PDA" -> [a |-> Map(SelectSeq(Others(S, {}), LAMBDA i : PdaKeeps(S.A[i])), LAMBDA i : AsInts(S, i, "g")), f |-> <<>>]
    [] f \in Pdb -> [a |-> Map(Others(S, {}), LAMBDA i : AsInts(S, i, "x")), f |-> <<>>]
    [] f = "PDC" -> [a |-> Map(Others(S, {}), LAMBDA i : PdcOut(S, i)), f |-> <<>>]
    [] f = "PRT" -> [a |-> Map(SelectSeq(Others(S, {}), LAMBDA i : S.A[i].t # STR), LAMBDA i : PrtOut(S, i)), f |-> <<>>]
    [] f = "PTC" -> [a |-> << Keep(S, PosIdx(S), "x"),
                              LET i == NameIdx(S.A, "normal") IN
                              IF i = 0 THEN Konst("normal", VECTOR, 3, V0) ELSE Out(S.A[i], "normal", VECTOR, 3, <<>>, i, "N"),
                              LET i == NameIdx(S.A, "radius") IN
                              IF i = 0 THEN Konst("radius", FLOAT, 1, <<F1>>) ELSE Keep(S, i, "x") >>
                           \o Map(SelectSeq(Others(S, PtcOwn), LAMBDA i : PtcKeeps(S.A[i])), LAMBDA i : PtcOut(S, i)),
                     f |-> <<>>]
    [] f = "BIN" -> [a |-> Map([j \in DOMAIN BinSchema |-> j], LAMBDA j : BinOut(S, j)), f |-> <<>>]
    \* put there with their meaning
    [] f = "ASISPTC" -> [a |-> Map(Others(S, {}), LAMBDA i : Keep(S, i, IF S.A[i].n = "normal" THEN "N" ELSE "x")), f |-> S.F]
    [] OTHER -> [a |-> Map(Others(S, {}), LAMBDA i : Keep(S, i, "x")), f |-> S.F]
\* files made by others hold exactly what their description says
Shape(fl) == IF ~fl.asis THEN fl.fmt ELSE IF fl.fmt = "PTC" THEN "ASISPTC" ELSE "ASIS"

(* sets a format can be asked to write (names and shapes it has room for)   *)
IsVec3(a) == a.t = VECTOR /\ a.c = 3
RECURSIVE HasSpace(_)
HasSpace(s) == IF Len(s) < 3 THEN FALSE
               ELSE SubSeq(s, 1, 3) \in {"%20", "%09", "%0a", "%0d", "%0b", "%0c"} \/ HasSpace(After(s, 1))
Word(s) == s # "%" /\ s # "" /\ ~HasSpace(s)
Writable(f, S) ==
  /\ \A i \in DOMAIN S.A : S.A[i].c >= 1
  /\ f \in {"BGEO", "GEO", "PTC", "RIB"} /\ PosIdx(S) # 0 => IsVec3(S.A[PosIdx(S)])
  /\ f \in {"GEO", "PDA", "PTC"} => \A i \in DOMAIN S.A : Word(S.A[i].n)
  /\ f = "PDA" => \A i \in DOMAIN S.A : S.A[i].n # "TYPES"
  /\ f = "BGEO" => \A i \in DOMAIN S.F : S.F[i].c >= 1
  /\ f = "PRT" => /\ \A i \in DOMAIN S.A : ByteLen(S.A[i].n) <= 31
                  /\ \A i, j \in DOMAIN S.A : i # j => LowerFirst(S.A[i].n) # LowerFirst(S.A[j].n)
  /\ f = "PTC" => \A i \in DOMAIN S.A : /\ S.A[i].n = "normal" => IsVec3(S.A[i])
                                        /\ S.A[i].n = "radius" => S.A[i].t = FLOAT /\ S.A[i].c = 1
  /\ f = "BIN" => \A i \in DOMAIN S.A, j \in DOMAIN BinSchema :
                     S.A[i].n = BinSchema[j].n => S.A[i].t = BinSchema[j].t /\ S.A[i].c = BinSchema[j].c
\* without a position there is nothing to write to these
Refused(f, S) == \/ f \in {"BGEO", "GEO", "PTC"} /\ PosIdx(S) = 0
                 \/ f = "RIB" /\ PosIdx(S) = 0 /\ NameIdx(S.A, "P") = 0

(* ------------------------------------------------- judging a reading     *)
\* normals: n is the source direction in 1/scale units, r what came back in 1/8192
NormalOk(v, r) ==
  LET n == [c \in 1..3 |-> Dec(v[c])]
      q == [c \in 1..3 |-> Nrm(r[c])]
      L == Isqrt(4096 * (Sq(n[1]) + Sq(n[2]) + Sq(n[3])))        \* 64 |n|
      len2 == Sq(q[1]) + Sq(q[2]) + Sq(q[3])
  IN IF \E c \in 1..3 : n[c] = 999999999 \/ Abs(n[c]) > 400 THEN TRUE      \* not a test vector
     ELSE IF n = <<0, 0, 0>> THEN q = <<0, 0, 0>>
     ELSE /\ Abs(len2 - 67108864) <= 60000
          /\ Abs(q[3] * L - n[3] * 64 * 8192) <= 2 * L + 8192
          /\ Abs(q[1] * n[2] - q[2] * n[1]) <= 3 * (Abs(n[1]) + Abs(n[2])) + 2
          /\ (n[1] # 0 \/ n[2] # 0) => q[1] * n[1] + q[2] * n[2] >= -3 * (Abs(n[1]) + Abs(n[2]))
          /\ (Sq(n[1]) + Sq(n[2]) >= Sq(n[3]) => q[1] * n[1] + q[2] * n[2] > 0)
ValueOk(o, k, v, r) ==                   \* v the source's value, r the value read
  CASE o.m = "x" -> r = v
    [] o.m = "g" -> \A c \in DOMAIN v : G6(r[c]) = G6(v[c])
    [] o.m = "n" -> r = [c \in DOMAIN v |-> I2F(v[c])]
    [] o.m = "N" -> NormalOk(v, r)
    [] OTHER -> TRUE
CellBack(S, o, k, r) ==
  /\ Len(r) = o.c
  /\ CASE o.m = "k" -> r = o.v
       [] o.m = "i" -> r = <<k>>
       [] OTHER -> (k \in DOMAIN S.C[o.src] => ValueOk(o, k, S.C[o.src][k], r))
DigestBack(S, o, c) ==
  LET d == S.D[o.src] IN
  CASE o.m = "x" -> ("x" \in DOMAIN d => c.x = d.x)
    [] o.m = "g" -> ("g" \in DOMAIN d => c.g = d.g)
    [] o.m = "n" -> ("u" \in DOMAIN d => c.u = d.u)
    [] OTHER -> TRUE
SameSchema(as, r) ==
  /\ Len(r) = Len(as)
  /\ \A i \in DOMAIN as : r[i].n = as[i].n /\ r[i].t = as[i].t /\ r[i].c = as[i].c
\* x: the content observed (literally, with x.d, or as digests of its columns)
BackOk(fl, x) ==
  LET S == fl.S  B == ReadBack(Shape(fl), S) IN
  /\ x.n = S.n
  /\ SameSchema(B.a, x.a)
  /\ \A i \in DOMAIN B.a : x.a[i].s = B.a[i].s
  /\ SameSchema(B.f, x.f)
  /\ \A i \in DOMAIN B.f : x.f[i].s = B.f[i].s /\ FixedOk(B.f[i], x.f[i].v)
  /\ IF "d" \in DOMAIN x
     THEN \A i \in DOMAIN B.a : /\ Len(x.d[i]) = S.n
                                /\ \A k \in 0..S.n-1 : CellBack(S, B.a[i], k, x.d[i][k+1])
     ELSE \A i \in DOMAIN B.a : B.a[i].src # 0 => DigestBack(S, B.a[i], x.a[i])
HeadOk(fl, x) ==
  LET S == fl.S  B == ReadBack(Shape(fl), S) IN
  /\ fl.fmt \notin ImportOnly => x.n = S.n
  /\ SameSchema(B.a, x.a) /\ SameSchema(B.f, x.f)
  /\ \A i \in DOMAIN x.a : x.a[i].k
  /\ \A i \in DOMAIN x.f : x.f[i].k

\* the set observed content x describes
SetOf(x) ==
  [EmptySet("simple") EXCEPT !.n = x.n,
     !.A = [i \in DOMAIN x.a |-> [n |-> x.a[i].n, t |-> x.a[i].t, c |-> x.a[i].c, s |-> x.a[i].s, p |-> Nil]],
     !.F = [i \in DOMAIN x.f |-> [n |-> x.f[i].n, t |-> x.f[i].t, c |-> x.f[i].c, s |-> x.f[i].s, p |-> Nil, v |-> x.f[i].v]],
     !.C = [i \in DOMAIN x.a |-> IF "d" \in DOMAIN x THEN [k \in 0..x.n-1 |-> x.d[i][k+1]] ELSE Nil],
     !.D = [i \in DOMAIN x.a |-> IF "d" \in DOMAIN x THEN Nil ELSE DigestOf(x.a[i])]]
HeadersOf(x) ==
  [EmptySet("headers") EXCEPT !.n = x.n,
     !.A = [i \in DOMAIN x.a |-> NewAttr(x.a[i].n, x.a[i].t, x.a[i].c)],
     !.F = [i \in DOMAIN x.f |-> NewFixed(x.f[i].n, x.f[i].t, x.f[i].c)],
     !.C = [i \in DOMAIN x.a |-> Nil], !.D = [i \in DOMAIN x.a |-> Nil]]

(* ------------------------------------------------- truncated files       *)
RECURSIVE SumLens(_)
SumLens(ss) == IF ss = <<>> THEN 0 ELSE 2 + ByteLen(Head(ss)) + SumLens(Tail(ss))
RECURSIVE DescLen(_)
DescLen(as) == IF as = <<>> THEN 0
               ELSE LET a == Head(as) IN
                    8 + ByteLen(a.n) + (IF a.t = STR THEN 4 + SumLens(a.s) ELSE 4 * a.c) + DescLen(Tail(as))
RECURSIVE SumCounts(_)
SumCounts(as) == IF as = <<>> THEN 0 ELSE Head(as).c + SumCounts(Tail(as))
BgeoStart(S) == 41 + DescLen(SelectSeq(S.A, LAMBDA a : a.n # "position"))
BgeoParticle(S) == 4 * (1 + SumCounts(S.A))
\* particles whose bytes all lie before the cut
Stored(S, len) == Max2(0, Min2(S.n, (len - BgeoStart(S)) \div BgeoParticle(S)))
CutOk(fl, rf, x) ==
  fl.fmt = "BGEO" /\ ~fl.raw /\ x.n = fl.S.n /\ "d" \in DOMAIN x =>
    LET B == ReadBack(Shape(fl), fl.S)  ks == 0..Stored(fl.S, fl.len)-1 IN
    /\ SameSchema(B.a, x.a)
    /\ \A i \in DOMAIN B.a : \A k \in ks : CellBack(fl.S, B.a[i], k, x.d[i][k+1])

(* ------------------------------------------------- the operations        *)
FileAt(st, p) == st.fs[Norm(p)]
Exists(st, p) == Norm(p) \in DOMAIN st.fs
\* what a read of p comes to: "none" (dispatch), "fail" (file level), "data", "free"
Outcome(st, p) ==
  LET rf == ReaderOf(Ext(p)) IN
  IF rf = "NO" THEN "none"
  ELSE IF ~Reachable(p) \/ ~Exists(st, p) THEN "fail"
  ELSE LET fl == FileAt(st, p) IN
       CASE fl.k = "dir" -> IF rf \in Signed THEN "fail" ELSE "free"
         [] fl.k = "any" -> "free"
         [] fl.k = "cut" -> "free"
         [] fl.k = "alien" -> IF Accepts(rf, fl.fmt) \/ rf \in Signed THEN "fail" ELSE "free"
         [] fl.gz /\ rf = "PRT" -> "fail"
         [] Accepts(rf, fl.fmt) -> "data"
         [] rf \in Signed -> "fail"
         [] OTHER -> "free"
ReadPre(st, p) ==
  LET rf == ReaderOf(Ext(p)) IN
  (rf # "NO" /\ Exists(st, p) /\ FileAt(st, p).k = "data") =>
    ~(rf \in Pdb /\ FileAt(st, p).fmt \in Pdb /\ ~Accepts(rf, FileAt(st, p).fmt))
FailMsgOk(st, e, o) == IF o = "none" THEN (e.verbose => e.r.msg) ELSE e.r.msg = e.verbose
\* hd: headers only
ReadOk(st, e, hd) ==
  LET o == Outcome(st, e.path)  fl == FileAt(st, e.path) IN
  CASE o \in {"none", "fail"} -> ~e.r.ok /\ FailMsgOk(st, e, o)
    [] o = "data" -> e.r.ok /\ (IF hd THEN HeadOk(fl, e.r.x) ELSE BackOk(fl, e.r.x))
    [] o = "free" -> IF ~e.r.ok \/ hd \/ fl.k # "cut" THEN TRUE ELSE CutOk(fl, ReaderOf(Ext(e.path)), e.r.x)

Complete(S) ==
  /\ \A i \in DOMAIN S.A : DOMAIN S.C[i] = 0..S.n-1 \/ "x" \in DOMAIN S.D[i]
  /\ \A i \in DOMAIN S.F : S.F[i].v # <<>>
Content(S) ==
  << S.n, [i \in DOMAIN S.A |-> <<S.A[i].n, S.A[i].t, S.A[i].c, S.A[i].s>>],
     [i \in DOMAIN S.F |-> <<S.F[i].n, S.F[i].t, S.F[i].c, S.F[i].s, S.F[i].v>>],
     [i \in DOMAIN S.A |-> IF DOMAIN S.C[i] = 0..S.n-1 THEN S.C[i] ELSE S.D[i].x] >>
NoFile(f, S) == f = "PRT" /\ S.n = 0
WritePre(st, e) ==
  LET f == WriterOf(Ext(e.path))  S == st.sets[e.h] IN
  f # "NO" => Writable(f, S)
WriteOk(st, e) ==
  LET f == WriterOf(Ext(e.path))  S == st.sets[e.h]
      gz == (e.force \/ EndsGz(e.path)) /\ f # "PRT"
      key == <<"w", f, Content(S)>>
  IN IF f = "NO" THEN (e.verbose => e.r.msg) /\ e.r.ex = Exists(st, e.path)
     ELSE IF NoFile(f, S) THEN e.r.ex = Exists(st, e.path)
     ELSE IF ~Reachable(e.path) \/ (Exists(st, e.path) /\ FileAt(st, e.path).k = "dir") THEN e.r.msg = e.verbose
     ELSE IF Refused(f, S) THEN e.r.msg = e.verbose
     ELSE /\ e.r.ex /\ e.r.gz = gz /\ (gz => e.r.valid)
          /\ (Complete(S) /\ key \in DOMAIN st.memo => st.memo[key] = e.r.dig)
WriteNext(st, e) ==
  LET f == WriterOf(Ext(e.path))  S == st.sets[e.h]
      gz == (e.force \/ EndsGz(e.path)) /\ f # "PRT"
      ok == ~(f = "NO" \/ NoFile(f, S) \/ ~Reachable(e.path) \/ (Exists(st, e.path) /\ FileAt(st, e.path).k = "dir"))
      fl == IF Refused(f, S) THEN [k |-> "any", fmt |-> "ANY", gz |-> FALSE]
            ELSE [k |-> "data", fmt |-> f, S |-> S, gz |-> gz, dig |-> e.r.dig, asis |-> FALSE]
  IN IF ~ok THEN st
     ELSE LET st1 == [st EXCEPT !.fs = Put(@, Norm(e.path), fl)] IN
          IF ~Refused(f, S) /\ Complete(S) THEN [st1 EXCEPT !.memo = Put(@, <<"w", f, Content(S)>>, e.r.dig)] ELSE st1

\* exporting to RIB: the parameter lists of the Points primitive of each pass
RibSkips(pass, nm) == (pass = 1 /\ nm \in {"P2", "position2"}) \/ (pass = 2 /\ nm \in {"P", "position"})
RibName(nm) == IF nm \in {"position", "position2", "P", "P2"} THEN "P" ELSE IF nm = "radius" THEN "width" ELSE nm
RibValues(S, i) ==                       \* all components of all particles in order
  LET a == S.A[i] IN
  [j \in 1..S.n * a.c |-> S.C[i][(j - 1) \div a.c][((j - 1) % a.c) + 1]]
RibOk(S, r) ==
  LET two == \E i \in DOMAIN S.A : S.A[i].n \in {"P2", "position2"} IN
  /\ r.ok
  /\ Len(r.p) = (IF two THEN 2 ELSE 1)
  /\ \A ps \in DOMAIN r.p :
       LET idx == SelectSeq(Others(S, {}), LAMBDA i : ~RibSkips(ps, S.A[i].n))
           width == \E i \in DOMAIN S.A : S.A[i].n \in {"width", "radius", "radiusPP"}
           got == SelectSeq(r.p[ps], LAMBDA q : q.n # "constantwidth")
       IN /\ (~width => Len(got) = Len(r.p[ps]) - 1)
          /\ Len(got) = Len(idx)
          /\ \A j \in DOMAIN idx :
               /\ got[j].n = RibName(S.A[idx[j]].n)
               /\ S.A[idx[j]].t # STR /\ DOMAIN S.C[idx[j]] = 0..S.n-1 =>
                    LET v == RibValues(S, idx[j]) IN
                    /\ Len(got[j].v) = Len(v)
                    /\ IF IsInt(S.A[idx[j]].t) THEN got[j].w = v
                       ELSE \A q \in DOMAIN v : G6(got[j].v[q]) = G6(v[q])

\* a PTS text: first line skipped, second line gives the number of columns
PtsSet(lines) ==
  LET nc == IF Len(lines) < 2 THEN 0 ELSE Len(lines[2])
      good == IF Len(lines) < 2 THEN <<>> ELSE SelectSeq(SubSeq(lines, 2, Len(lines)), LAMBDA l : Len(l) = nc)
      at(nm, t, c) == NewAttr(nm, t, c)
      A == <<at("id", INT, 1), at("position", VECTOR, 3)>>
           \o (IF nc \in {4, 7, 8} THEN <<at("remission", FLOAT, 1)>> ELSE <<>>)
           \o (IF nc = 8 THEN <<at("quality", INT, 1)>> ELSE <<>>)
           \o (IF nc \in {6, 7, 8} THEN <<at("pointColor", VECTOR, 3)>> ELSE <<>>)
      val(nm, l, k) == CASE nm = "id" -> <<k>>
                         [] nm = "position" -> <<l[1].f, l[3].f, l[2].f>>
                         [] nm = "remission" -> <<l[4].f>>
                         [] nm = "quality" -> <<l[5].i>>
                         [] nm = "pointColor" -> <<D255(l[nc-2].f), D255(l[nc-1].f), D255(l[nc].f)>>
  IN IF nc \notin {3, 4, 6, 7, 8} THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, S |-> [EmptySet("simple") EXCEPT !.n = Len(good), !.A = A,
             !.C = [i \in DOMAIN A |-> [k \in 0..Len(good)-1 |-> val(A[i].n, good[k+1], k)]],
             !.D = [i \in DOMAIN A |-> Nil]]]
\* a Maya cache: channels [n, ty, v] in order, each v a flat list of components
RECURSIVE Under(_, _)                     \* position of the first underscore, 0 if none
Under(s, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = "_" THEN i ELSE Under(s, i + 1)
McName(s) == LET u == Under(s, 1) IN IF u = 0 THEN s ELSE After(s, u)
McSet(ch, n) ==
  LET used == SelectSeq(ch, LAMBDA c : c.one = FALSE)
      arity(c) == IF c.ty = "FVCA" THEN 3 ELSE 1
      A == [i \in DOMAIN used |-> NewAttr(McName(used[i].n),
              IF used[i].ty = "FVCA" THEN VECTOR ELSE IF McName(used[i].n) = "id" THEN INT ELSE FLOAT, arity(used[i]))]
  IN [EmptySet("simple") EXCEPT !.n = n, !.A = A,
        !.C = [i \in DOMAIN A |-> [k \in 0..n-1 |-> [c \in 1..A[i].c |-> used[i].v[k * A[i].c + c]]]],
        !.D = [i \in DOMAIN A |-> Nil]]

FileOps == {"write", "read", "hdr", "put", "cut", "gzcut", "gz", "cp", "mkdir", "unlink", "raw", "rib", "pts", "mc", "fstat"}
FilePre(st, e) ==
  CASE e.op = "write" -> e.h \in DOMAIN st.sets /\ WritePre(st, e)
    [] e.op \in {"read", "hdr"} -> ReadPre(st, e.path)
    [] e.op \in {"gz", "cp"} -> Exists(st, e.path) /\ FileAt(st, e.path).k # "dir" /\ Reachable(e.path2)
    [] e.op \in {"cut", "gzcut", "raw", "fstat"} -> /\ Exists(st, e.path) /\ FileAt(st, e.path).k = "data"
                                           /\ (e.op = "raw" => FileAt(st, e.path).fmt = "BGEO" /\ ~FileAt(st, e.path).asis)
    [] e.op = "rib" -> Exists(st, e.path) /\ FileAt(st, e.path).fmt = "RIB"
    [] e.op = "pts" -> TRUE
    [] OTHER -> TRUE
FileOk(st, e) ==
  CASE e.op = "write" -> WriteOk(st, e)
    [] e.op = "read" -> ReadOk(st, e, FALSE)
    [] e.op = "hdr" -> ReadOk(st, e, TRUE)
    [] e.op = "raw" -> e.r.ok /\ BackOk(FileAt(st, e.path), e.r.x)
    [] e.op = "rib" -> RibOk(FileAt(st, e.path).S, e.r)
    [] e.op = "fstat" -> /\ e.r.ex /\ e.r.gz = FileAt(st, e.path).gz /\ (e.r.gz => e.r.valid)
                         /\ FileAt(st, e.path).dig \in {"%", e.r.dig}
    [] OTHER -> TRUE
PutFile(st, p, fl) == [st EXCEPT !.fs = Put(@, Norm(p), fl)]
Given(fmt, S) == [k |-> "data", fmt |-> fmt, S |-> S, gz |-> FALSE, dig |-> "%", asis |-> TRUE]
FileNext(st, e) ==
  CASE e.op = "write" -> WriteNext(st, e)
    [] e.op = "read" -> IF e.r.ok THEN Set1(st, e.h2, SetOf(e.r.x)) ELSE st
    [] e.op = "hdr" -> IF e.r.ok THEN Set1(st, e.h2, HeadersOf(e.r.x)) ELSE st
    [] e.op = "put" -> PutFile(st, e.path, IF e.fmt = "JUNK" THEN [k |-> "data", fmt |-> "JUNK", gz |-> FALSE, dig |-> "%", asis |-> TRUE]
                                           ELSE IF e.fmt = "ANY" THEN [k |-> "any", fmt |-> "ANY", gz |-> FALSE]
                                           ELSE IF "alien" \in DOMAIN e THEN [k |-> "alien", fmt |-> e.fmt, gz |-> FALSE]
                                           ELSE Given(e.fmt, SetOf(e.x)))
    [] e.op = "pts" -> LET P == PtsSet(e.lines) IN
                       PutFile(st, e.path, IF P.ok THEN Given("PTS", P.S) ELSE [k |-> "any", fmt |-> "ANY", gz |-> FALSE])
    [] e.op = "mc" -> PutFile(st, e.path, Given("MC", McSet(e.ch, e.n)))
    [] e.op \in {"cut", "gzcut"} /\ "S" \notin DOMAIN FileAt(st, e.path) -> PutFile(st, e.path2, [k |-> "any", fmt |-> "ANY", gz |-> FALSE])
    [] e.op = "cut" -> LET f == FileAt(st, e.path) IN
                       [st EXCEPT !.fs = Put(@, Norm(e.path2), [k |-> "cut", fmt |-> f.fmt, S |-> f.S, gz |-> FALSE, raw |-> f.gz, len |-> e.r.len, asis |-> f.asis])]
    \* compressed, and nonsense after those bytes
    [] e.op = "gzcut" -> LET f == FileAt(st, e.path) IN
                       PutFile(st, e.path2, [k |-> "cut", fmt |-> f.fmt, S |-> f.S, gz |-> FALSE, raw |-> TRUE, len |-> e.r.len, asis |-> f.asis])
    [] e.op = "gz" -> [st EXCEPT !.fs = Put(@, Norm(e.path2), [FileAt(st, e.path) EXCEPT !.gz = TRUE])]
    [] e.op = "cp" -> [st EXCEPT !.fs = Put(@, Norm(e.path2), FileAt(st, e.path))]
    [] e.op = "mkdir" -> [st EXCEPT !.fs = Put(@, Norm(e.path), [k |-> "dir", fmt |-> "DIR", gz |-> FALSE])]
    [] e.op = "unlink" -> [st EXCEPT !.fs = Drop(@, Norm(e.path))]
    [] OTHER -> st
=============================================================================
