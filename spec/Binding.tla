------------------------------ MODULE Binding ------------------------------
(***************************************************************************)
(* The Python module.  Its calls mean what the calls of the library mean   *)
(* (System); added here is what only Python has: values of any type and    *)
(* length as arguments, exceptions, references, and results that the       *)
(* program keeps.                                                          *)
(*   st.ext         handle -> number of further references to its set      *)
(*   st.pya, pyf    attribute handle -> what it said of itself             *)
(*   st.kept        name -> a result kept by the program                   *)
(* A value is [seq, v]: seq is t (tuple), l (list) or another letter for   *)
(* something that is no sequence of components; v its components           *)
(* [k: kind, x: value] with kind i (int), f (float of 32 bits), d (another *)
(* float, x being the nearest one of 32 bits), else something else.        *)
(***************************************************************************)
EXTENDS System
BindInit == [ext |-> Nil, pya |-> Nil, pyf |-> Nil, kept |-> Nil] @@ SysInit
BindOps == {"pyref", "pyset", "pysetF", "pyget", "pyquery", "pymisc", "pytname", "pyattr", "pyres", "pyagain", "pyaddPs", "pynear"}

Extra(st, h) == IF h \in DOMAIN st.ext THEN st.ext[h] ELSE 0
IsSeq(e) == e.seq \in {"t", "l", "s"}           \* a string is a sequence, of no components
Fits(a, x) == IF IsInt(a.t) THEN x.k = "i" ELSE x.k \in {"i", "f", "d"}
Accepted(a, e) == IsSeq(e) /\ Len(e.v) = a.c /\ \A j \in DOMAIN e.v : Fits(a, e.v[j])
Counted(a, e) == IsSeq(e) /\ Len(e.v) = a.c
Kept1(a, x) == IF ~IsInt(a.t) /\ x.k = "i" THEN I2F(x.x) ELSE x.x
KeptAs(a, e) == [j \in DOMAIN e.v |-> Kept1(a, e.v[j])]
Raised(e) == e.r.exc # ""
Point(e, s, v) == s \in {"t", "l"} /\ Len(v) = 3 /\ \A j \in DOMAIN v : v[j].k \in {"f", "d"}
NoPoint(e, s, v) == s \notin {"t", "l"} \/ Len(v) # 3 \/ \E j \in DOMAIN v : v[j].k \notin {"f", "d", "i"}

BindPre(st, e) ==
  CASE e.op \in {"pyset", "pyget"} -> e.h \in DOMAIN st.sets /\ e.k \in DOMAIN st.av /\ st.av[e.k].h = e.h
    [] e.op = "pysetF" -> e.h \in DOMAIN st.sets /\ e.k \in DOMAIN st.fv /\ st.fv[e.k].h = e.h
    [] e.op \in {"pyref", "pyquery", "pynear", "pyaddPs"} -> e.h \in DOMAIN st.sets
    [] e.op = "pymisc" -> e.h \in DOMAIN st.sets /\ e.k \in DOMAIN st.pya
    [] e.op = "pyres" -> /\ e.h \in DOMAIN st.sets
                         /\ (e.w \in {"get", "strs", "name"} => e.k \in DOMAIN st.av /\ st.av[e.k].h = e.h)
                         /\ (e.w \in {"getF", "strsF", "nameF"} => e.k \in DOMAIN st.fv /\ st.fv[e.k].h = e.h)
                         /\ (e.w = "get" => e.i \in 0..st.sets[e.h].n-1)
    [] e.op = "pyattr" -> e.k \in (IF e.w = "a" THEN DOMAIN st.pya ELSE DOMAIN st.pyf)
    [] e.op = "pyagain" -> e.m \in DOMAIN st.kept
    [] e.op = "pytname" -> e.t \in 0..4
    [] OTHER -> SysPre(st, e)

BindOk(st, e) ==
  LET S == st.sets[e.h]  a == S.A[st.av[e.k].i]  f == S.F[st.fv[e.k].i] IN
  CASE e.op = "pyset" -> IF e.i < S.n THEN Raised(e) = ~Accepted(a, e)
                         ELSE (~Counted(a, e) => Raised(e))
    [] e.op = "pysetF" -> Raised(e) = ~Accepted(f, e)
    [] e.op = "pyget" -> IF e.i \in 0..S.n-1 THEN ~Raised(e) /\ CellOk(S, st.av[e.k].i, e.i, e.r.v) ELSE Raised(e)
    [] e.op = "pyquery" -> LET both == e.w = "box" IN
         /\ (Point(e, e.s1, e.v1) /\ (both => Point(e, e.s2, e.v2)) => ~Raised(e))
         /\ (NoPoint(e, e.s1, e.v1) \/ (both /\ NoPoint(e, e.s2, e.v2)) => Raised(e))
    [] e.op = "pynear" -> IF NoTree(S) THEN e.r.p = <<>> ELSE Known(S) => NearestOk(S, e.q, e.N, e.R, e.r.p, e.r.d)
    [] e.op = "pymisc" -> Raised(e)
    [] e.op \in {"pyref", "pyaddPs", "pyres"} -> TRUE
    [] e.op = "pytname" -> e.r = <<"NONE", "VECTOR", "FLOAT", "INT", "INDEXEDSTR">>[e.t+1]
    [] e.op = "pyattr" -> e.r = (IF e.w = "a" THEN st.pya[e.k] ELSE st.pyf[e.k])
    [] e.op = "pyagain" -> e.r = st.kept[e.m]
    [] OTHER -> SysOk(st, e)

\* attribute handles know their attribute from the call that gave them
Learn(st, e) ==
  IF e.op \in {"addA", "nameA", "idxA"} /\ e.r.ok THEN [st EXCEPT !.pya = Put(@, e.k, e.r)]
  ELSE IF e.op \in {"addF", "nameF", "idxF"} /\ e.r.ok THEN [st EXCEPT !.pyf = Put(@, e.k, e.r)]
  ELSE st
Moved(S, i) == IF IsPos(S, i) THEN Stale(S) ELSE S
BindNext(st, e) ==
  CASE e.op = "reset" -> BindInit
    \* another process starts; only what operations gave for what is remembered
    [] e.op = "restart" -> [BindInit EXCEPT !.memo = st.memo]
    [] e.op = "mem" -> [ext |-> Nil, pya |-> Nil, pyf |-> Nil, kept |-> Nil] @@ SysNext(st, e)
    [] e.op = "pyref" -> [st EXCEPT !.ext = Put(@, e.h, Extra(st, e.h) + 1)]
    [] e.op = "rel" -> IF Extra(st, e.h) > 0 THEN [st EXCEPT !.ext[e.h] = @ - 1] ELSE SysNext(st, e)
    [] e.op = "pyset" -> LET S == st.sets[e.h]  i == st.av[e.k].i IN
         IF e.i >= S.n THEN st
         ELSE IF Accepted(S.A[i], e) THEN Set1(st, e.h, Moved(WriteCell(S, i, e.i, KeptAs(S.A[i], e)), i))
         ELSE IF Counted(S.A[i], e) THEN Set1(st, e.h, Moved([S EXCEPT !.C[i] = Drop(@, e.i), !.D[i] = Nil], i))   \* in part
         ELSE st
    [] e.op = "pysetF" -> LET i == st.fv[e.k].i  f == st.sets[e.h].F[i] IN
         IF Accepted(f, e) THEN UpdF(st, e.h, i, [f EXCEPT !.v = KeptAs(f, e)])
         ELSE IF Counted(f, e) THEN UpdF(st, e.h, i, [f EXCEPT !.v = <<>>])
         ELSE st
    [] e.op = "pyaddPs" -> SysNext(st, [e EXCEPT !.op = "addPs"])
    [] e.op = "pyres" -> [st EXCEPT !.kept = Put(@, e.m, e.r)]
    [] e.op \in BindOps -> st
    [] OTHER -> Learn(SysNext(st, e), e)
=============================================================================
