------------------------------- MODULE Tools -------------------------------
(***************************************************************************)
(* The tools.  What they say of, or make from, a file is what the library  *)
(* reads from it; attributes may come back from JSON in another order.     *)
(*   lib    what the library gave for the tool's input: [ok, x]            *)
(*   out    the state of the output file afterwards, was: before           *)
(***************************************************************************)
EXTENDS Binding
ToolOps == {"json", "pj", "conv", "info", "attr"}

(* ------------------------------------------------- JSON                  *)
SameAttr(S, i, x, j) ==
  LET a == S.A[i]  b == x.a[j] IN
  b.n = a.n /\ b.t = a.t /\ b.c = a.c /\ b.s = a.s /\ Len(x.d[j]) = S.n /\ \A k \in 0..S.n-1 : CellOk(S, i, k, x.d[j][k+1])
SameFixed(f, b) == b.n = f.n /\ b.t = f.t /\ b.c = f.c /\ b.s = f.s /\ FixedOk(f, b.v)
SameSet(S, x) ==                         \* attribute order aside
  /\ x.n = S.n /\ Len(x.a) = Len(S.A) /\ Len(x.f) = Len(S.F)
  /\ \A i \in DOMAIN S.A : \E j \in DOMAIN x.a : SameAttr(S, i, x, j)
  /\ \A i \in DOMAIN S.F : \E j \in DOMAIN x.f : SameFixed(S.F[i], x.f[j])
\* the attributes of S in the order a file was found to have; those it has no room for last
RECURSIVE InOrder(_, _)
InOrder(A, ns) == IF ns = <<>> THEN <<>>
                  ELSE LET i == NameIdx(A, Head(ns)) IN (IF i = 0 THEN <<>> ELSE <<i>>) \o InOrder(A, Tail(ns))
Order(A, ns) == LET q == InOrder(A, ns) IN q \o SelectSeq([i \in DOMAIN A |-> i], LAMBDA i : i \notin Range(q))
Reorder(S, o) ==
  LET p == Order(S.A, o.a)  q == Order(S.F, o.f) IN
  [S EXCEPT !.A = [i \in DOMAIN p |-> S.A[p[i]]], !.C = [i \in DOMAIN p |-> S.C[p[i]]], !.D = [i \in DOMAIN p |-> S.D[p[i]]],
            !.F = [i \in DOMAIN q |-> S.F[q[i]]]]

LastExt(p) == IF EndsGz(p) THEN "gz" ELSE Ext(p)
PjExt == {"bgeo", "geo", "bhclassic", "ptc", "pdb"}
\* what partjson comes to: "no" (refused or impossible), "to" JSON, "from" JSON, "free"
Pj(st, e) ==
  LET x1 == LastExt(e.path)  x2 == LastExt(e.path2) IN
  IF ~Exists(st, e.path) \/ ~Reachable(e.path) THEN "no"
  ELSE IF FileAt(st, e.path).k \in {"dir", "any", "cut"} THEN "free"
  ELSE IF x1 = "json" THEN IF x2 \notin PjExt THEN "no" ELSE IF FileAt(st, e.path).fmt = "JSON" THEN "from" ELSE "free"
  ELSE IF x1 \notin PjExt THEN "no"
  ELSE IF Outcome(st, e.path) = "data" THEN "to" ELSE IF Outcome(st, e.path) = "free" THEN "free" ELSE "no"
LibOk(st, e) ==                          \* the library's own reading of the input
  LET o == Outcome(st, e.path) IN
  CASE o \in {"none", "fail"} -> ~e.r.lib.ok
    [] o = "data" -> e.r.lib.ok /\ BackOk(FileAt(st, e.path), e.r.lib.x)
    [] OTHER -> TRUE
Unchanged(e) == e.r.out = e.r.was
\* writing set S to path2, as an event of writing
Wrote(e, S, force) == [op |-> "write", h |-> "tool", path |-> e.path2, force |-> force, verbose |-> TRUE, r |-> [msg |-> TRUE] @@ e.r.out]
With(st, S) == [st EXCEPT !.sets = Put(@, "tool", S)]
Without(st) == [st EXCEPT !.sets = Drop(@, "tool")]
Unseen(st) == [st EXCEPT !.memo = Nil]   \* bytes may depend on where the position attribute is
MayWrite(st, path, S) == WriterOf(Ext(path)) # "NO" => Writable(WriterOf(Ext(path)), S)
CannotWrite(st, path, S) ==
  LET f == WriterOf(Ext(path)) IN
  f = "NO" \/ NoFile(f, S) \/ ~Reachable(path) \/ Refused(f, S) \/ (Exists(st, path) /\ FileAt(st, path).k = "dir")
WrittenOk(st, e, S, force) ==
  IF CannotWrite(st, e.path2, S) THEN (WriterOf(Ext(e.path2)) = "NO" \/ NoFile(WriterOf(Ext(e.path2)), S) => Unchanged(e))
  ELSE WriteOk(With(st, S), Wrote(e, S, force))
Written(st, e, S, force) == Without(WriteNext(With(st, S), Wrote(e, S, force)))

(* ------------------------------------------------- reports               *)
Rounded(a, v) == IF IsInt(a.t) THEN v ELSE [c \in DOMAIN v |-> G6(v[c])]
StrAt(a, tok) == IF tok >= 0 /\ tok < Len(a.s) THEN a.s[tok + 1] ELSE "?%3cout-of-bounds%3e"
Parts(x, k) == [i \in DOMAIN x.a |-> x.d[i][k+1]]
PartOk(x, p) ==
  IF p.i \notin 0..x.n-1 THEN p.oor
  ELSE /\ ~p.oor /\ Len(p.v) = Len(x.a)
       /\ \A i \in DOMAIN x.a :
            LET a == x.a[i]  q == p.v[i]  v == x.d[i][p.i+1] IN
            /\ q.n = a.n /\ q.t = a.t /\ q.v = Rounded(a, v)
            /\ (a.t = STR => q.s = [c \in DOMAIN v |-> StrAt(a, v[c])])
Bare(as) == [i \in DOMAIN as |-> [n |-> as[i].n, t |-> as[i].t, c |-> as[i].c]]
Ascending(q) == \A i \in 1..Len(q)-1 : q[i] < q[i+1]
ReportOk(x, e) ==
  LET r == e.r  all == \E i \in DOMAIN e.flags : e.flags[i] \in {"-a", "--all"}
      every == \E i \in DOMAIN e.flags : e.flags[i] \in {"-s", "--strings"}
      str == SelectSeq(x.a, LAMBDA a : a.t = STR)
  IN
  /\ r.rc = 0 /\ r.n = x.n /\ r.a = Bare(x.a)
  /\ IF all THEN [j \in DOMAIN r.parts |-> r.parts[j].i] = [j \in 1..x.n |-> j - 1]
     ELSE Ascending([j \in DOMAIN r.parts |-> r.parts[j].i]) /\ {r.parts[j].i : j \in DOMAIN r.parts} = Range(e.idx)
  /\ \A j \in DOMAIN r.parts : PartOk(x, r.parts[j])
  /\ ~all /\ e.idx = <<>> =>
       /\ r.f = Bare(x.f)
       /\ Len(r.fv) = Len(x.f)
       /\ \A i \in DOMAIN x.f : /\ r.fv[i].n = x.f[i].n /\ r.fv[i].v = Rounded(x.f[i], x.f[i].v)
                                /\ (x.f[i].t = STR => r.fv[i].s = x.f[i].s)
       /\ Len(r.strs) = Len(str)
       /\ \A i \in DOMAIN str : /\ r.strs[i].n = str[i].n /\ r.strs[i].k = Len(str[i].s)
                                /\ r.strs[i].s = (IF every THEN str[i].s ELSE SubSeq(str[i].s, 1, Min2(Len(r.strs[i].s), Len(str[i].s))))
ListingOk(x, e) ==
  LET i == NameIdx(x.a, e.n) IN
  IF i = 0 THEN e.r.rc # 0 /\ e.r.v = <<>>
  ELSE LET a == x.a[i]  m == IF e.max < 0 THEN Min2(Len(e.r.v), x.n) ELSE Min2(e.max, x.n) IN
       /\ e.r.rc = 0 /\ Len(e.r.v) = m /\ (x.n > 0 /\ e.max # 0 => m > 0)
       /\ \A k \in 1..m : LET q == e.r.v[k]  v == x.d[i][k] IN
            /\ q.n = a.n /\ q.i = k - 1
            /\ CASE a.t = STR -> q.k = "s" /\ q.v = <<StrAt(a, v[1])>>
                 [] a.t = INT -> q.k = "i" /\ q.v[1] = v[1]
                 [] OTHER -> q.k = "f" /\ q.v = Rounded(a, v)

(* ------------------------------------------------- the events            *)
ToolPre(st, e) ==
  CASE e.op = "json" -> e.h \in DOMAIN st.sets /\ e.h2 \notin DOMAIN st.sets
    [] e.op = "conv" -> ReadPre(st, e.path) /\ (Outcome(st, e.path) = "data" /\ LibOk(st, e) => MayWrite(st, e.path2, SetOf(e.r.lib.x)))
    [] e.op = "pj" -> ReadPre(st, e.path) /\ (Pj(st, e) = "from" => MayWrite(st, e.path2, FileAt(st, e.path).S))
    [] e.op \in {"info", "attr"} -> ReadPre(st, e.path)
    [] OTHER -> BindPre(st, e)
ToolOk(st, e) ==
  CASE e.op = "json" -> SameSet(st.sets[e.h], e.r.x)
    [] e.op = "conv" -> LET o == Outcome(st, e.path) IN
         /\ LibOk(st, e)
         /\ CASE o = "data" -> LET S == SetOf(e.r.lib.x) IN
                                 /\ e.r.rc = 0 /\ WrittenOk(st, e, S, FALSE)
                                 /\ (Complete(S) /\ PrintKey(S) \in DOMAIN st.memo /\ WriterOf(Ext(e.path2)) # "BIN" => st.memo[PrintKey(S)] = e.r.print)
              [] o = "free" -> TRUE
              [] OTHER -> Unchanged(e) /\ e.r.msg
    [] e.op = "pj" -> LET o == Pj(st, e) IN
         CASE o = "no" -> e.r.rc # 0 /\ Unchanged(e)
           [] o = "to" -> LibOk(st, e) /\ e.r.rc = 0 /\ e.r.out.ex /\ ~e.r.out.gz
           [] o = "from" -> LET S == Reorder(FileAt(st, e.path).S, e.r.order) IN e.r.rc = 0 /\ WrittenOk(Unseen(st), e, S, e.c)
           [] OTHER -> TRUE
    [] e.op = "info" -> LET o == Outcome(st, e.path) IN
         CASE o = "data" -> LibOk(st, e) /\ ReportOk(e.r.lib.x, e) [] o = "free" -> TRUE [] OTHER -> ~e.r.lib.ok /\ e.r.rc # 0 /\ e.r.a = <<>>
    [] e.op = "attr" -> LET o == Outcome(st, e.path) IN
         CASE o = "data" -> LibOk(st, e) /\ ListingOk(e.r.lib.x, e) [] o = "free" -> TRUE [] OTHER -> ~e.r.lib.ok /\ e.r.rc # 0 /\ e.r.v = <<>>
    [] OTHER -> BindOk(st, e)
Spoilt(st, p) == [st EXCEPT !.fs = Put(@, Norm(p), [k |-> "any", fmt |-> "ANY", gz |-> FALSE])]
ToolNext(st, e) ==
  CASE e.op = "json" -> Owned(Set1(st, e.h2, SetOf(e.r.x)), e)
    [] e.op = "conv" -> LET o == Outcome(st, e.path) IN
         IF o = "data" THEN Written(st, e, SetOf(e.r.lib.x), FALSE) ELSE IF o = "free" THEN Spoilt(st, e.path2) ELSE st
    [] e.op = "pj" -> LET o == Pj(st, e) IN
         CASE o = "no" -> st
           [] o = "to" -> [st EXCEPT !.fs = Put(@, Norm(e.path2), [k |-> "data", fmt |-> "JSON", S |-> SetOf(e.r.lib.x), gz |-> FALSE, dig |-> e.r.out.dig, asis |-> TRUE])]
           [] o = "from" -> [Written(st, e, Reorder(FileAt(st, e.path).S, e.r.order), e.c) EXCEPT !.memo = st.memo]
           [] OTHER -> Spoilt(st, e.path2)
    [] e.op \in {"info", "attr"} -> st
    [] OTHER -> BindNext(st, e)
=============================================================================
