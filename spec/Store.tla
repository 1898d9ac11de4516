------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* In-memory particle sets: state and every operation of the public API.   *)
(*                                                                         *)
(* An operation is an event e: a record with the name of the operation     *)
(* (e.op), its arguments, and e.r, the value its caller observed.          *)
(*   StoreNext(st,e)  the state after e                                    *)
(*   StoreOk(st,e)    whether the observation e.r is permitted in st       *)
(*   StorePre(st,e)   whether e is inside the contract of the API          *)
(*                                                                         *)
(* A component of a value is an integer for integer and string attributes  *)
(* and the 8 hex digits of the bit pattern for float attributes.  Strings  *)
(* are percent-encoded.  Particle indices are 0-based, as in the API;      *)
(* attribute indices are 1-based here.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Dec(_)      \* bit pattern of a float coordinate -> its value in 1/scale units

NONE == 0  VECTOR == 1  FLOAT == 2  INT == 3  STR == 4
IsInt(t) == t \in {INT, STR}

Nil == [x \in {} |-> 0]                      \* the empty function
Put(f, k, v) == (k :> v) @@ f
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Range(s) == {s[i] : i \in DOMAIN s}

(***************************************************************************)
(* State.                                                                  *)
(*  st.sets : handle -> set                                                *)
(*     kind  "simple" | "inter"                                            *)
(*     n     number of particles                                           *)
(*     A     attributes, each [n: name, t: type, c: arity,                 *)
(*                             s: string table, p: preferred tokens]       *)
(*     F     fixed attributes, likewise, plus v: value (<<>> if unwritten) *)
(*     C     per attribute: index -> value, for the cells written          *)
(*     K     what the last sort saw: s is "no" (never sorted), "ok", or      *)
(*           "old" (changed since); pos the positions in 1/scale units     *)
(*     D     per attribute: digest of its whole column, Nil if not known   *)
(*  st.av, st.fv : attribute handle variable -> [h: set, i: attribute]     *)
(***************************************************************************)
NoSort == [s |-> "no", pos |-> Nil]
EmptySet(kind) == [kind |-> kind, n |-> 0, A |-> <<>>, F |-> <<>>, C |-> <<>>,
                   K |-> NoSort, D |-> <<>>]
StoreInit == [sets |-> Nil, av |-> Nil, fv |-> Nil]

Names(as) == {as[i].n : i \in DOMAIN as}
IndexOf(as, nm) == CHOOSE i \in DOMAIN as : as[i].n = nm
NewAttr(nm, t, c) == [n |-> nm, t |-> t, c |-> c, s |-> <<>>, p |-> Nil]
NewFixed(nm, t, c) == [n |-> nm, t |-> t, c |-> c, s |-> <<>>, p |-> Nil, v |-> <<>>]

AddAttr(S, nm, t, c) ==
  [S EXCEPT !.A = Append(@, NewAttr(nm, t, c)), !.C = Append(@, Nil), !.D = Append(@, Nil)]
AddFixed(S, nm, t, c) == [S EXCEPT !.F = Append(@, NewFixed(nm, t, c))]

\* cells of attribute i of set S after writing v to particle k
WriteCell(S, i, k, v) == [S EXCEPT !.C[i] = Put(@, k, v), !.D[i] = Nil]
Stale(S) == IF S.K.s = "ok" THEN [S EXCEPT !.K = [s |-> "old", pos |-> Nil]] ELSE S
IsPos(S, i) == S.A[i].n = "position"

(* string tables: s is the table, p remembers the token a string was last   *)
(* given to by renaming (more than one token may then carry the string)     *)
Tokens(a, str) == {k \in 0..Len(a.s)-1 : a.s[k+1] = str}
LookupOk(a, str, r) ==
  LET T == Tokens(a, str) IN
  IF T = {} THEN r = -1
  ELSE IF str \in DOMAIN a.p /\ a.p[str] \in T THEN r = a.p[str]
  ELSE r \in T
Register(a, str) == IF Tokens(a, str) = {} THEN [a EXCEPT !.s = Append(@, str)] ELSE a
RegisterOk(a, str, r) ==
  IF Tokens(a, str) = {} THEN r = Len(a.s) ELSE LookupOk(a, str, r)
Rename(a, tok, str) ==
  IF tok \in 0..Len(a.s)-1
  THEN [a EXCEPT !.s[tok+1] = str, !.p = Put(@, str, tok)]
  ELSE a

(* what attributeInfo and friends return *)
InfoOk(as, i, r) ==
  IF i \in DOMAIN as
  THEN r.ok /\ r.t = as[i].t /\ r.c = as[i].c /\ r.n = as[i].n
  ELSE ~r.ok
NameIdx(as, nm) == IF nm \in Names(as) THEN IndexOf(as, nm) ELSE 0

(* one value read from attribute i of S at index k *)
ShapeOk(a, v) == Len(v) = a.c
CellOk(S, i, k, v) == /\ ShapeOk(S.A[i], v)
                      /\ (k \in DOMAIN S.C[i] => S.C[i][k] = v)
FixedOk(f, v) == ShapeOk(f, v) /\ (f.v # <<>> => f.v = v)

SchemaOk(as, r) ==
  /\ Len(r) = Len(as)
  /\ \A i \in DOMAIN as : r[i].n = as[i].n /\ r[i].t = as[i].t /\ r[i].c = as[i].c
StringsOk(as, r) == \A i \in DOMAIN as : r[i].s = as[i].s
FixedSchemaOk(S, r) ==
  /\ SchemaOk(S.F, r) /\ StringsOk(S.F, r)
  /\ \A i \in DOMAIN S.F : FixedOk(S.F[i], r[i].v)

DumpOk(S, r) ==
  /\ r.n = S.n
  /\ SchemaOk(S.A, r.a) /\ StringsOk(S.A, r.a)
  /\ FixedSchemaOk(S, r.f)
  /\ \A i \in DOMAIN S.A : /\ Len(r.d[i]) = S.n
                            /\ \A k \in 0..S.n-1 : CellOk(S, i, k, r.d[i][k+1])

(* digests of columns: learnt the first time they are observed *)
ColsOk(S, r) ==
  /\ r.n = S.n
  /\ SchemaOk(S.A, r.a) /\ StringsOk(S.A, r.a)
  /\ FixedSchemaOk(S, r.f)
  /\ \A i \in DOMAIN S.A : \A f \in DOMAIN S.D[i] : S.D[i][f] = r.a[i][f]
DigestOf(c) == [f \in {"x", "g", "u", "z", "h"} \cap DOMAIN c |-> c[f]]

(***************************************************************************)
(* Cloning.  m is a sequence of <<from, to>> pairs.                         *)
(***************************************************************************)
Mapped(m, nm) == LET hit == {j \in DOMAIN m : m[j][1] = nm} IN
                 IF hit = {} THEN nm ELSE m[CHOOSE j \in hit : TRUE][2]
MapNames(as, m) == [i \in DOMAIN as |-> [as[i] EXCEPT !.n = Mapped(m, as[i].n), !.p = Nil]]
CloneOf(S, withParticles, m) ==
  IF withParticles
  THEN [kind |-> "simple", n |-> S.n, A |-> MapNames(S.A, m), F |-> MapNames(S.F, m), C |-> S.C,
        K |-> NoSort, D |-> S.D]
  ELSE [EmptySet("simple") EXCEPT !.F = MapNames(S.F, m)]
BareAttr(a, m) == NewAttr(Mapped(m, a.n), a.t, a.c)
BareFixed(a, m) == NewFixed(Mapped(m, a.n), a.t, a.c)
SchemaOf(S, m) ==
  [EmptySet("simple") EXCEPT
     !.A = [i \in DOMAIN S.A |-> BareAttr(S.A[i], m)],
     !.F = [i \in DOMAIN S.F |-> BareFixed(S.F[i], m)],
     !.C = [i \in DOMAIN S.A |-> Nil],
     !.D = [i \in DOMAIN S.A |-> Nil]]
NamesDistinct(as, m) == \A i, j \in DOMAIN as : i # j => Mapped(m, as[i].n) # Mapped(m, as[j].n)
ClonePre(S, m) == NamesDistinct(S.A, m) /\ NamesDistinct(S.F, m)

(***************************************************************************)
(* Merging a delta D into a base B under the identifiers ids.              *)
(***************************************************************************)
IntAttr(S, nm) == nm \in Names(S.A) /\ S.A[IndexOf(S.A, nm)].t = INT
Common(B, D, ids) == {j \in DOMAIN ids : IntAttr(B, ids[j]) /\ IntAttr(D, ids[j])}
OneSided(B, D, ids) == {j \in DOMAIN ids : IntAttr(B, ids[j]) # IntAttr(D, ids[j])}
Matching(B, D, ids) == Common(B, D, ids) # {} /\ OneSided(B, D, ids) = {}
\* the identifier of particle k: the values of the common identifier attributes
IdOf(S, J, ids, k) == [j \in J |-> S.C[IndexOf(S.A, ids[j])][k][1]]

RECURSIVE AddStrings(_, _)
AddStrings(a, strs) == IF strs = <<>> THEN a
                       ELSE AddStrings(Register(a, Head(strs)), Tail(strs))
\* the token of string str in table a (the table holds it)
TokenIn(a, str) == CHOOSE k \in Tokens(a, str) :
                     IF str \in DOMAIN a.p /\ a.p[str] \in Tokens(a, str) THEN k = a.p[str] ELSE TRUE
\* value v of delta attribute d, re-indexed for base attribute b
Reindexed(b, d, v) ==
  IF d.t # STR THEN v
  ELSE [c \in DOMAIN v |-> IF v[c] \in 0..Len(d.s)-1 THEN TokenIn(b, d.s[v[c]+1]) ELSE v[c]]

Zero(a) == [c \in 1..a.c |-> IF IsInt(a.t) THEN 0 ELSE "00000000"]

RECURSIVE ExtendA(_, _, _)
ExtendA(B, D, i) ==                       \* attributes only in the delta
  IF i > Len(D.A) THEN B
  ELSE LET a == D.A[i] IN
       IF a.n \in Names(B.A) THEN ExtendA(B, D, i+1)
       ELSE LET B1 == AddAttr(B, a.n, a.t, a.c)
                B2 == [B1 EXCEPT !.C[Len(B1.A)] = [k \in 0..B.n-1 |-> Zero(a)]]
            IN ExtendA(B2, D, i+1)
RECURSIVE MergeF(_, _, _)
MergeF(B, D, i) ==                        \* fixed attributes of the delta
  IF i > Len(D.F) THEN B
  ELSE LET f == D.F[i]
           B1 == IF f.n \in Names(B.F) THEN B ELSE AddFixed(B, f.n, f.t, f.c)
           j == IndexOf(B1.F, f.n)
           b == AddStrings(B1.F[j], f.s)
           w == IF f.v = <<>> THEN <<>> ELSE Reindexed(b, f, f.v)
       IN MergeF([B1 EXCEPT !.F[j] = [b EXCEPT !.v = w]], D, i+1)

MergeOf(B, D, ids) ==
  LET B1 == MergeF(ExtendA(B, D, 1), D, 1)
      J == Common(B, D, ids)
      use == Matching(B, D, ids)
      DIds == IF use THEN [k \in 0..D.n-1 |-> IdOf(D, J, ids, k)] ELSE Nil
      BIds == IF use THEN [k \in 0..B.n-1 |-> IdOf(B, J, ids, k)] ELSE Nil
      Hits == IF use THEN [k \in 0..D.n-1 |-> {b \in 0..B.n-1 : BIds[b] = DIds[k]}]
              ELSE [k \in 0..D.n-1 |-> {}]
      \* where each delta particle goes
      RECURSIVE Place(_, _, _)
      Place(k, next, acc) ==
        IF k = D.n THEN [at |-> acc, n |-> next]
        ELSE IF Hits[k] # {} THEN Place(k+1, next, Append(acc, CHOOSE b \in Hits[k] : TRUE))
        ELSE Place(k+1, next+1, Append(acc, next))
      pl == Place(0, B.n, <<>>)
      A1 == [i \in DOMAIN B1.A |->
               IF B1.A[i].n \in Names(D.A) THEN AddStrings(B1.A[i], D.A[IndexOf(D.A, B1.A[i].n)].s)
               ELSE B1.A[i]]
      \* last delta particle that goes to base particle k, if any
      From == [k \in Range(pl.at) |-> CHOOSE x \in 0..D.n-1 : pl.at[x+1] = k /\ \A y \in x+1..D.n-1 : pl.at[y+1] # k]
      C1 == [i \in DOMAIN B1.A |->
               IF B1.A[i].n \notin Names(D.A) THEN B1.C[i]
               ELSE LET di == IndexOf(D.A, B1.A[i].n)
                        new == {k \in DOMAIN From : From[k] \in DOMAIN D.C[di]}
                        keep == DOMAIN B1.C[i] \ DOMAIN From
                    IN [k \in new \cup keep |->
                          IF k \in keep THEN B1.C[i][k]
                          ELSE Reindexed(A1[i], D.A[di], D.C[di][From[k]])]]
  IN [B1 EXCEPT !.n = pl.n, !.A = A1, !.C = C1,
                !.D = [i \in DOMAIN B1.A |-> Nil], !.K = Stale(B).K]
\* inside the contract: same-named attributes agree, identifiers written and unique
MergePre(B, D, ids) ==
  /\ \A i \in DOMAIN B.A, j \in DOMAIN D.A : B.A[i].n = D.A[j].n => B.A[i].t = D.A[j].t /\ B.A[i].c = D.A[j].c
  /\ \A i \in DOMAIN B.F, j \in DOMAIN D.F : B.F[i].n = D.F[j].n => B.F[i].t = D.F[j].t /\ B.F[i].c = D.F[j].c
  /\ LET J == Common(B, D, ids) IN
     Matching(B, D, ids) =>
       /\ \A j \in J : /\ DOMAIN B.C[IndexOf(B.A, ids[j])] = 0..B.n-1 /\ B.A[IndexOf(B.A, ids[j])].c = 1
                       /\ DOMAIN D.C[IndexOf(D.A, ids[j])] = 0..D.n-1
       /\ LET BI == [k \in 0..B.n-1 |-> IdOf(B, J, ids, k)]
              Firsts == {BI[k] : k \in 0..B.n-1}
          IN Cardinality(Firsts) = B.n

(***************************************************************************)
(* Geometry.                                                               *)
(***************************************************************************)
PosIdx(S) == NameIdx(S.A, "position")
Sortable(S) == S.kind = "simple" /\ PosIdx(S) # 0 /\ S.A[PosIdx(S)].t = VECTOR /\ S.A[PosIdx(S)].c = 3
AllPos(S) == DOMAIN S.C[PosIdx(S)] = 0..S.n-1
SortOf(S) ==
  IF ~Sortable(S) THEN S
  ELSE IF AllPos(S) THEN [S EXCEPT !.K = [s |-> "ok",
           pos |-> [k \in 0..S.n-1 |-> [c \in 1..3 |-> Dec(S.C[PosIdx(S)][k][c])]]]]
  ELSE [S EXCEPT !.K = [s |-> "old", pos |-> Nil]]     \* positions unknown
Known(S) == S.K.s = "ok"
NoTree(S) == S.K.s = "no"
Sq(x) == x * x
Dist(p, q) == Sq(p[1]-q[1]) + Sq(p[2]-q[2]) + Sq(p[3]-q[3])

BoxOk(S, e) ==
  LET lo == [c \in 1..3 |-> Min2(e.a[c], e.b[c])]
      hi == [c \in 1..3 |-> Max2(e.a[c], e.b[c])]
      pre == Len(e.pre)
      In == {k \in 0..S.n-1 : \A c \in 1..3 : lo[c] <= S.K.pos[k][c] /\ S.K.pos[k][c] <= hi[c]}
  IN IF NoTree(S) \/ S.kind = "inter" THEN e.r = e.pre
     ELSE Known(S) =>
       /\ Len(e.r) = pre + Cardinality(In)
       /\ SubSeq(e.r, 1, pre) = e.pre
       /\ {e.r[j] : j \in pre+1..Len(e.r)} = In

\* idx, ds: returned particles and squared distances
NearestOk(S, q, N, R, idx, ds) ==
  LET d == [k \in 0..S.n-1 |-> Dist(S.K.pos[k], q)]
      In == {k \in 0..S.n-1 : d[k] < R * R}
      ret == Range(idx)
      want == Min2(N, Cardinality(In))
  IN /\ Len(idx) = want /\ Len(ds) = want
     /\ Cardinality(ret) = want /\ ret \subseteq In
     /\ \A j \in DOMAIN idx : ds[j] = d[idx[j]]
     /\ \A k \in In \ ret : \A j \in DOMAIN ds : d[k] >= ds[j]
MaxOf(s) == CHOOSE x \in Range(s) : \A y \in Range(s) : y <= x
NearOk(S, e) ==
  IF NoTree(S) \/ S.kind = "inter" THEN e.r.cnt = 0 /\ e.r.p \in {<<>>, <<12345>>}
  ELSE Known(S) =>
       /\ NearestOk(S, e.q, e.N, e.R, e.r.p, e.r.d)
       /\ e.r.cnt = Len(e.r.q)
       /\ NearestOk(S, e.q, e.N, e.R, e.r.q, e.r.e)
       /\ e.r.rok
       /\ (S.n > 0 /\ e.N > 0) => e.r.fin = (IF e.r.cnt = e.N THEN MaxOf(e.r.e) ELSE e.R * e.R)

(***************************************************************************)
(* Iteration.                                                              *)
(***************************************************************************)
StepsFrom(n, s) == Max2(0, n - s)
WalkOk(S, s, r) ==
  /\ r.steps = StepsFrom(S.n, s)
  /\ r.cons
  /\ r.first = (IF r.steps > 0 THEN s ELSE -1)
IterOk(S, st, e) ==
  LET s == Max2(0, e.start) IN
  /\ WalkOk(S, s, e.r)
  /\ Len(e.r.vals) = Len(e.obs)
  /\ \A j \in DOMAIN e.obs :
       IF e.obs[j] >= s /\ e.obs[j] < S.n
       THEN /\ Len(e.r.vals[j]) = Len(e.ks)
            /\ \A k \in DOMAIN e.ks : CellOk(S, st.av[e.ks[k]].i, e.obs[j], e.r.vals[j][k])
       ELSE e.r.vals[j] = <<>>
RECURSIVE WriteAll(_, _, _)
WriteAll(S, i, ws) == IF ws = <<>> THEN S
                      ELSE WriteAll(WriteCell(S, i, Head(ws)[1], Head(ws)[2]), i, Tail(ws))

(* integers converted to float: exact up to 2^24, so the observation gives  *)
(* the same integer back; beyond it is the generator's business to stay out *)
AsFloatOk(S, i, e) ==
  /\ Len(e.r) = Len(e.idx)
  /\ \A j \in DOMAIN e.idx : CellOk(S, i, e.idx[j], e.r[j])

(***************************************************************************)
(* The transition function.                                                *)
(***************************************************************************)
StoreOps == {"reset", "restart", "new", "rel", "addA", "addF", "nameA", "idxA", "nameF", "idxF", "cnt", "addP", "addPs",
             "set", "setc", "get", "setF", "getF", "reg", "regF", "lku", "lkuF", "ren", "renF", "strs", "strsF",
             "iter", "iterw", "mul", "asf", "clone", "schema", "merge", "sort", "box", "near", "dump", "cols",
             "hdrs", "fill", "touch", "print", "tname"}

Set1(st, h, S) == [st EXCEPT !.sets = Put(@, h, S)]
UpdA(st, h, i, a) == [st EXCEPT !.sets[h].A[i] = a]
UpdF(st, h, i, a) == [st EXCEPT !.sets[h].F[i] = a]
BindA(st, k, h, i) == [st EXCEPT !.av = Put(@, k, [h |-> h, i |-> i])]
BindF(st, k, h, i) == [st EXCEPT !.fv = Put(@, k, [h |-> h, i |-> i])]

(* the event is within the contract: handles exist and belong to the set    *)
StorePre(st, e) ==
  /\ e.op \in StoreOps
  /\ ("h" \in DOMAIN e => e.h \in DOMAIN st.sets)
  /\ (e.op \in {"set", "setc", "get", "reg", "lku", "ren", "strs", "iterw", "mul", "asf"} => e.k \in DOMAIN st.av /\ st.av[e.k].h = e.h)
  /\ (e.op \in {"setF", "getF", "regF", "lkuF", "renF", "strsF"} => e.k \in DOMAIN st.fv /\ st.fv[e.k].h = e.h)
  /\ (e.op = "iter" => \A k \in DOMAIN e.ks : e.ks[k] \in DOMAIN st.av /\ st.av[e.ks[k]].h = e.h)
  /\ (e.op \in {"clone", "schema"} => ClonePre(st.sets[e.h], e.m) /\ e.h2 # e.h)
  /\ (e.op = "merge" => e.d \in DOMAIN st.sets /\ e.d # e.h /\ MergePre(st.sets[e.h], st.sets[e.d], e.ids))
  /\ (e.op = "mul" \/ e.op = "asf" => \A j \in DOMAIN e.idx : e.idx[j] < st.sets[e.h].n)

StoreNext(st, e) ==
  CASE e.op = "reset" -> StoreInit
    [] e.op = "new"   -> Set1(st, e.h2, EmptySet(e.kind))
    [] e.op = "rel"   -> [st EXCEPT !.sets = Drop(@, e.h)]
    [] e.op = "addA"  -> LET S == st.sets[e.h] IN
                         IF e.n \in Names(S.A) THEN st
                         ELSE BindA(Set1(st, e.h, AddAttr(S, e.n, e.t, e.c)), e.k, e.h, Len(S.A)+1)
    [] e.op = "addF"  -> LET S == st.sets[e.h] IN
                         IF e.n \in Names(S.F) THEN st
                         ELSE BindF(Set1(st, e.h, AddFixed(S, e.n, e.t, e.c)), e.k, e.h, Len(S.F)+1)
    [] e.op = "nameA" -> LET i == NameIdx(st.sets[e.h].A, e.n) IN IF i = 0 THEN st ELSE BindA(st, e.k, e.h, i)
    [] e.op = "nameF" -> LET i == NameIdx(st.sets[e.h].F, e.n) IN IF i = 0 THEN st ELSE BindF(st, e.k, e.h, i)
    [] e.op = "idxA"  -> IF e.i+1 \in DOMAIN st.sets[e.h].A THEN BindA(st, e.k, e.h, e.i+1) ELSE st
    [] e.op = "idxF"  -> IF e.i+1 \in DOMAIN st.sets[e.h].F THEN BindF(st, e.k, e.h, e.i+1) ELSE st
    [] e.op = "addP"  -> LET S == st.sets[e.h] IN Set1(st, e.h, Stale([S EXCEPT !.n = @ + 1, !.D = [i \in DOMAIN S.A |-> Nil]]))
    [] e.op = "addPs" -> LET S == st.sets[e.h] IN Set1(st, e.h, Stale([S EXCEPT !.n = @ + e.c, !.D = [i \in DOMAIN S.A |-> Nil]]))
    [] e.op = "set"   -> LET S == st.sets[e.h]  i == st.av[e.k].i IN
                         IF e.i >= S.n THEN st
                         ELSE Set1(st, e.h, IF IsPos(S, i) THEN Stale(WriteCell(S, i, e.i, e.v)) ELSE WriteCell(S, i, e.i, e.v))
    [] e.op = "setc"  -> LET S == st.sets[e.h]  i == st.av[e.k].i IN
                         IF e.i >= S.n THEN st
                         ELSE LET T == IF e.i \in DOMAIN S.C[i] THEN WriteCell(S, i, e.i, [S.C[i][e.i] EXCEPT ![e.j+1] = e.v])
                                       ELSE IF S.A[i].c = 1 THEN WriteCell(S, i, e.i, <<e.v>>)
                                       ELSE [S EXCEPT !.D[i] = Nil]
                              IN Set1(st, e.h, IF IsPos(S, i) THEN Stale(T) ELSE T)
    [] e.op = "setF"  -> UpdF(st, e.h, st.fv[e.k].i, [st.sets[e.h].F[st.fv[e.k].i] EXCEPT !.v = e.v])
    [] e.op = "reg"   -> UpdA(st, e.h, st.av[e.k].i, Register(st.sets[e.h].A[st.av[e.k].i], e.s))
    [] e.op = "regF"  -> UpdF(st, e.h, st.fv[e.k].i, Register(st.sets[e.h].F[st.fv[e.k].i], e.s))
    [] e.op = "ren"   -> UpdA(st, e.h, st.av[e.k].i, Rename(st.sets[e.h].A[st.av[e.k].i], e.tok, e.s))
    [] e.op = "renF"  -> UpdF(st, e.h, st.fv[e.k].i, Rename(st.sets[e.h].F[st.fv[e.k].i], e.tok, e.s))
    [] e.op = "iterw" -> LET S == st.sets[e.h]  i == st.av[e.k].i
                             s == Max2(0, e.start)
                             ws == SelectSeq(e.w, LAMBDA x : x[1] >= s /\ x[1] < S.n)
                             T == WriteAll(S, i, ws)
                         IN Set1(st, e.h, IF IsPos(S, i) THEN Stale(T) ELSE T)
    [] e.op = "clone" -> Set1(st, e.h2, CloneOf(st.sets[e.h], e.p, e.m))
    [] e.op = "schema"-> Set1(st, e.h2, SchemaOf(st.sets[e.h], e.m))
    [] e.op = "merge" -> Set1(st, e.h, MergeOf(st.sets[e.h], st.sets[e.d], e.ids))
    [] e.op = "sort"  -> Set1(st, e.h, SortOf(st.sets[e.h]))
    [] e.op = "cols"  -> Set1(st, e.h, [st.sets[e.h] EXCEPT !.D = [i \in DOMAIN @ |-> DigestOf(e.r.a[i])]])
    [] e.op = "fill"  -> LET S == st.sets[e.h] IN
                         Set1(st, e.h, Stale([S EXCEPT !.C = [i \in DOMAIN S.A |-> Nil], !.D = [i \in DOMAIN S.A |-> Nil]]))
    [] OTHER -> st

StoreOk(st, e) ==
  LET S == st.sets[e.h]                       \* evaluated only where used
      a == S.A[st.av[e.k].i]
      f == S.F[st.fv[e.k].i]
  IN
  CASE e.op \in {"reset", "restart", "new", "rel", "set", "setF", "ren", "renF", "sort", "fill", "touch", "merge"} -> TRUE
    [] e.op = "addA"  -> IF e.n \in Names(S.A) THEN ~e.r.ok
                         ELSE e.r.ok /\ e.r.t = e.t /\ e.r.c = e.c /\ e.r.n = e.n
    [] e.op = "addF"  -> IF e.n \in Names(S.F) THEN ~e.r.ok
                         ELSE e.r.ok /\ e.r.t = e.t /\ e.r.c = e.c /\ e.r.n = e.n
    [] e.op = "nameA" -> InfoOk(S.A, NameIdx(S.A, e.n), e.r)
    [] e.op = "nameF" -> InfoOk(S.F, NameIdx(S.F, e.n), e.r)
    [] e.op = "idxA"  -> InfoOk(S.A, e.i+1, e.r)
    [] e.op = "idxF"  -> InfoOk(S.F, e.i+1, e.r)
    [] e.op = "cnt"   -> e.r = <<S.n, Len(S.A), Len(S.F)>>
    [] e.op = "addP"  -> e.r = S.n
    [] e.op = "addPs" -> WalkOk([S EXCEPT !.n = @ + e.c], S.n, e.r)
    [] e.op = "setc"  -> e.r = (e.i < S.n)
    [] e.op = "get"   -> IF e.i < S.n THEN e.r.ok /\ CellOk(S, st.av[e.k].i, e.i, e.r.v) ELSE ~e.r.ok
    [] e.op = "getF"  -> FixedOk(f, e.r)
    [] e.op = "reg"   -> RegisterOk(a, e.s, e.r)
    [] e.op = "regF"  -> RegisterOk(f, e.s, e.r)
    [] e.op = "lku"   -> LookupOk(a, e.s, e.r)
    [] e.op = "lkuF"  -> LookupOk(f, e.s, e.r)
    [] e.op = "strs"  -> e.r = a.s
    [] e.op = "strsF" -> e.r = f.s
    [] e.op = "iter"  -> IterOk(S, st, e)
    [] e.op = "iterw" -> e.r = StepsFrom(S.n, Max2(0, e.start))
    [] e.op \in {"mul", "asf"} -> AsFloatOk(S, st.av[e.k].i, e)
    [] e.op \in {"clone", "schema"} -> e.r = TRUE
    [] e.op = "box"   -> BoxOk(S, e)
    [] e.op = "near"  -> NearOk(S, e)
    [] e.op = "dump"  -> DumpOk(S, e.r)
    [] e.op = "cols"  -> ColsOk(S, e.r)
    [] e.op = "hdrs"  -> /\ e.r.n = S.n /\ SchemaOk(S.A, e.r.a) /\ SchemaOk(S.F, e.r.f)
                         /\ (\A i \in DOMAIN e.r.a : e.r.a[i].k) /\ (\A i \in DOMAIN e.r.f : e.r.f[i].k)
    [] e.op = "tname" -> e.r = <<<<"NONE", "VECTOR", "FLOAT", "INT", "INDEXEDSTR">>[e.t+1], IF e.t = 0 THEN 0 ELSE 4>>
    [] OTHER -> FALSE
=============================================================================
