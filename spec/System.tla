------------------------------- MODULE System ------------------------------
(***************************************************************************)
(* Everything Partio does for one process: particle sets (Store),          *)
(* clustering (Cluster), files (Files), zip archives (Zip), the cache of   *)
(* shared reads, and the life time of objects.                                                   *)
(*   st.obj    handle -> the object it holds (a number)                    *)
(*   st.marks  name -> an object whose freeing is watched                  *)
(*   st.cache  file name (literally) -> handles obtained by cached reads   *)
(*             of it and not yet released                                  *)
(*   st.memo   what repeatable operations gave for an argument             *)
(*   st.past   the operations since everything was last given back, after  *)
(*             the first time that was asked for                           *)
(***************************************************************************)
EXTENDS Zip
SysInit == ZipInit @@ [past |-> <<>>, memo |-> Nil, fs |-> Nil, obj |-> Nil, nobj |-> 0, marks |-> Nil, cache |-> Nil] @@ StoreInit

Holders(st, p) == IF p \in DOMAIN st.cache THEN st.cache[p] ELSE {}
CachedNames(st, h) == {p \in DOMAIN st.cache : h \in st.cache[p]}
Live(st, o) == o \in Range(st.obj)

CachedPre(st, e) == ReadPre(st, e.path)
CachedOk(st, e) ==
  LET H == Holders(st, e.path) IN
  IF H = {} THEN ReadOk(st, e, FALSE) /\ (e.r.ok => e.r.same = <<>>)
  ELSE LET S == st.sets[CHOOSE h \in H : TRUE] IN
       /\ e.r.ok /\ Range(e.r.same) = H
       /\ IF "d" \in DOMAIN e.r.x THEN DumpOk(S, e.r.x) ELSE ColsOk(S, e.r.x)
\* all holders see the set sorted once one of them asked for it
SortAll(st, H) == [st EXCEPT !.sets = [h \in DOMAIN @ |-> IF h \in H THEN SortOf(@[h]) ELSE @[h]]]
CachedNext(st, e) ==
  LET H == Holders(st, e.path) IN
  IF ~e.r.ok THEN st
  ELSE LET S == IF H = {} THEN SetOf(e.r.x) ELSE st.sets[CHOOSE h \in H : TRUE]
           st1 == [Set1(st, e.h2, S) EXCEPT !.cache = Put(@, e.path, H \cup {e.h2}),
                     !.obj = Put(@, e.h2, IF H = {} THEN st.nobj + 1 ELSE st.obj[CHOOSE h \in H : TRUE]),
                     !.nobj = @ + 1]
           needs == e.sort /\ ~Known(S)
       IN IF needs THEN SortAll(st1, H \cup {e.h2}) ELSE st1

\* event e made a new object for its handle h2
Owned(st, e) == IF "h2" \in DOMAIN e /\ e.h2 \in DOMAIN st.sets
                THEN [st EXCEPT !.obj = Put(@, e.h2, st.nobj + 1), !.nobj = @ + 1] ELSE st
Released(st, e) ==
  [st EXCEPT !.sets = Drop(@, e.h), !.obj = Drop(@, e.h),
             !.cache = [p \in {q \in DOMAIN @ : @[q] # {e.h}} |-> @[p] \ {e.h}]]

ClusterKey(st, e) == <<"c", st.sets[e.h].A, st.sets[e.h].C, e.nn, e.R, e.ins, e.conn, e.den>>
PrintKey(S) == <<"p", Content(S)>>

HeldKey(st) == <<"m", st.past>>
Said(e) == [x \in DOMAIN e \ {"r"} |-> e[x]]

SysPre(st, e) ==
  /\ ("h2" \in DOMAIN e => e.h2 \notin DOMAIN st.sets)
  /\ CASE e.op = "cluster" -> e.h \in DOMAIN st.sets /\ ClusterPre(st.sets[e.h], e)
       [] e.op = "cached" -> CachedPre(st, e)
       [] e.op = "mark" -> e.h \in DOMAIN st.sets
       [] e.op = "freed" -> e.m \in DOMAIN st.marks
       [] e.op = "mem" -> TRUE
       [] e.op \in ZipOps -> ZipPre(st, e)
       [] e.op \in FileOps -> FilePre(st, e)
       [] OTHER -> StorePre(st, e)
SysOk(st, e) ==
  CASE e.op = "cluster" ->
         /\ ClusterOk(st.sets[e.h], e)
         /\ (ClusterKey(st, e) \in DOMAIN st.memo => st.memo[ClusterKey(st, e)] = e.r)
    [] e.op = "cached" -> CachedOk(st, e)
    [] e.op = "mark" -> TRUE
    [] e.op = "freed" -> e.r = ~Live(st, st.marks[e.m])
    \* everything was given back: what is held is what the same operations left before
    [] e.op = "mem" -> HeldKey(st) \in DOMAIN st.memo => st.memo[HeldKey(st)] = e.r
    [] e.op = "print" -> LET S == st.sets[e.h] IN
         Complete(S) /\ PrintKey(S) \in DOMAIN st.memo => st.memo[PrintKey(S)] = e.r
    [] e.op \in ZipOps -> ZipOk(st, e)
    [] e.op \in FileOps -> FileOk(st, e)
    [] OTHER -> StoreOk(st, e)
SysStep(st, e) ==
  CASE e.op = "reset" -> SysInit
    [] e.op = "mem" -> [SysInit EXCEPT !.memo = IF st.past = <<>> THEN st.memo ELSE Put(st.memo, HeldKey(st), e.r), !.past = <<[op |-> "mem"]>>]
    [] e.op = "cluster" ->
         LET st1 == [st EXCEPT !.sets[e.h] = SortOf(@), !.memo = Put(@, ClusterKey(st, e), e.r)]
         IN IF e.r.ok THEN Owned(Set1(st1, e.h2, ClusterOf(st.sets[e.h], e)), e) ELSE IF Clusterable(st.sets[e.h]) THEN st1 ELSE st
    [] e.op = "cached" -> CachedNext(st, e)
    [] e.op = "mark" -> [st EXCEPT !.marks = Put(@, e.m, st.obj[e.h])]
    [] e.op = "print" -> LET S == st.sets[e.h] IN IF Complete(S) THEN [st EXCEPT !.memo = Put(@, PrintKey(S), e.r)] ELSE st
    [] e.op = "rel" -> Released(st, e)
    [] e.op \in ZipOps -> ZipNext(st, e)
    [] e.op \in FileOps -> Owned(FileNext(st, e), e)
    [] OTHER -> Owned(StoreNext(st, e), e)
SysNext(st, e) == LET n == SysStep(st, e) IN
                  IF st.past = <<>> \/ e.op \in {"reset", "mem"} THEN n ELSE [n EXCEPT !.past = Append(@, Said(e))]
=============================================================================
