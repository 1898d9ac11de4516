------------------------------ MODULE MCStore ------------------------------
(***************************************************************************)
(* Bounded model checking of Store, and generation of programs from it.    *)
(*                                                                         *)
(* A profile (environment variable PROFILE) fixes a start program and an   *)
(* alphabet of operations; every sequence of at most DEPTH operations of   *)
(* the alphabet inside the contract is explored (with MODE = "paths" all   *)
(* of them as distinct histories, with MODE = "cover" one per distinct     *)
(* abstract state and operation).  Every explored history is printed and   *)
(* replayed into the real library by the harness.                          *)
(* The invariants restate the properties independently of StoreNext, on    *)
(* ghost state (last writes, first tokens) kept here.                      *)
(***************************************************************************)
EXTENDS Store, Json, IOUtils

Profile == IOEnv.PROFILE
Depth == atoi(IOEnv.DEPTH)
Mode == IOEnv.MODE
DecImpl(x) == 0

VARIABLES st, hist, ghost
vars == <<st, hist, ghost>>

F1 == "3f800000"  F2 == "c0200000"  F0 == "00000000"
New(h, kind) == [op |-> "new", h2 |-> h, kind |-> kind]
AddA(h, k, n, t, c) == [op |-> "addA", h |-> h, k |-> k, n |-> n, t |-> t, c |-> c, r |-> [ok |-> TRUE]]
AddF(h, k, n, t, c) == [op |-> "addF", h |-> h, k |-> k, n |-> n, t |-> t, c |-> c]
AddP(h) == [op |-> "addP", h |-> h]
AddPs(h, c) == [op |-> "addPs", h |-> h, c |-> c]
SetV(h, k, i, v) == [op |-> "set", h |-> h, k |-> k, i |-> i, v |-> v]
SetF(h, k, v) == [op |-> "setF", h |-> h, k |-> k, v |-> v]
Reg(h, k, s) == [op |-> "reg", h |-> h, k |-> k, s |-> s]
RegF(h, k, s) == [op |-> "regF", h |-> h, k |-> k, s |-> s]
Ren(h, k, tok, s) == [op |-> "ren", h |-> h, k |-> k, tok |-> tok, s |-> s]
RenF(h, k, tok, s) == [op |-> "renF", h |-> h, k |-> k, tok |-> tok, s |-> s]
Clone(h, h2, p, m) == [op |-> "clone", h |-> h, h2 |-> h2, p |-> p, m |-> m]
Schema(h, h2, m) == [op |-> "schema", h |-> h, h2 |-> h2, m |-> m]
Merge(h, d, ids) == [op |-> "merge", h |-> h, d |-> d, ids |-> ids]
Sort(h) == [op |-> "sort", h |-> h]

Kind == IF Mode = "coverinter" THEN "inter" ELSE "simple"
OneOf(kind) == <<New("s", kind)>>

Val(t, c, x) == [j \in 1..c |-> IF IsInt(t) THEN x + j - 1 ELSE IF x = 0 THEN F1 ELSE F2]

(* start programs *)
Prefix ==
  CASE Profile = "grow"  -> OneOf("simple")
    [] Profile = "growi" -> OneOf("inter")
    [] Profile = "str"   -> OneOf("simple") \o <<AddA("s", "a", "name", STR, 1), AddA("s", "b", "clan", STR, 1)>>
    [] Profile = "stri"  -> OneOf("inter") \o <<AddA("s", "a", "name", STR, 1), AddA("s", "b", "clan", STR, 1)>>
    [] Profile = "strf"  -> OneOf("simple") \o <<AddF("s", "fa", "name", STR, 1), AddF("s", "fb", "clan", STR, 1)>>
    [] Profile = "strfi" -> OneOf("inter") \o <<AddF("s", "fa", "name", STR, 1), AddF("s", "fb", "clan", STR, 1)>>
    [] Profile = "fixed" -> OneOf("simple")
    [] Profile = "fixedi" -> OneOf("inter")
    [] Profile = "clone" -> OneOf("simple") \o <<AddA("s", "a", "x", INT, 2), AddA("s", "b", "n", STR, 1), AddF("s", "fa", "x", FLOAT, 1),
                             AddP("s"), SetV("s", "a", 0, <<1, 2>>), Reg("s", "b", "p"), Reg("s", "b", "q"), SetV("s", "b", 0, <<1>>), SetF("s", "fa", <<F1>>)>>
    [] Profile \in {"merge", "merge2"} ->
                            <<New("s", "simple"), New("d", "simple"), AddA("s", "a", "id", INT, 1), AddA("d", "da", "id", INT, 1),
                              AddA("s", "c", "x", INT, 1), AddA("d", "dx", "x", INT, 1), AddA("s", "k2", "id2", INT, 1)>>
    [] Profile = "mergestr" ->
                            <<New("s", "simple"), New("d", "inter"), AddA("s", "a", "n", STR, 1), AddA("d", "da", "n", STR, 1),
                              AddA("d", "db", "only", STR, 1), AddF("s", "fa", "f", STR, 1), AddF("d", "fda", "f", STR, 1), AddF("d", "fdb", "g", STR, 1),
                              AddP("d"), AddP("s"), Reg("d", "da", "p"), Reg("d", "db", "u"), Reg("d", "db", "w"), RegF("d", "fda", "p"), RegF("d", "fda", "q"),
                              RegF("d", "fdb", "z"), RegF("d", "fdb", "y"), SetF("d", "fdb", <<1>>), SetV("d", "db", 0, <<1>>), Reg("s", "a", "r"), SetV("s", "a", 0, <<0>>)>>

Strs == {"p", "q", "%"}   \* "%" encodes the empty string
Last(S) == {i \in {0, S.n - 1} : i >= 0}
A(h) == st.sets[h].A
N(h) == st.sets[h].n
Toks(as, i) == 0..Len(as[i].s)-1

\* profile alphabets: the mutating operations allowed in st
Alphabet ==
  CASE Profile \in {"grow", "growi"} ->
         LET S == st.sets["s"] IN
            {AddA("s", "k" \o n, n, t, c) : n \in {"x", "y"}, t \in {INT}, c \in {1}}
            \cup {AddA("s", "kz", "z", VECTOR, 3)}
            \cup {AddP("s"), AddPs("s", 0), AddPs("s", 3), AddPs("s", 10)}
            \cup {SetV("s", "k" \o S.A[i].n, p, Val(S.A[i].t, S.A[i].c, x)) : i \in DOMAIN S.A, p \in Last(S), x \in {Len(hist)}}
    [] Profile \in {"str", "stri"} ->
            {Reg("s", k, s) : k \in {"a", "b"}, s \in Strs}
            \cup {Ren("s", "a", t, s) : t \in {-1, 0, 1, 2}, s \in Strs}
    [] Profile \in {"strf", "strfi"} ->
            {RegF("s", k, s) : k \in {"fa", "fb"}, s \in Strs}
            \cup {RenF("s", "fa", t, s) : t \in {-1, 0, 1, 2}, s \in Strs}
    [] Profile \in {"fixed", "fixedi"} ->
         LET S == st.sets["s"] IN
            {AddF("s", "f" \o n, n, INT, 1) : n \in {"x", "y"}}
            \cup {AddF("s", "fz", "z", VECTOR, 3), AddA("s", "kx", "x", INT, 1), AddP("s")}
            \cup {SetF("s", "f" \o S.F[i].n, Val(S.F[i].t, S.F[i].c, Len(hist))) : i \in DOMAIN S.F}
            \cup {SetV("s", "k" \o S.A[i].n, p, Val(S.A[i].t, S.A[i].c, Len(hist))) : i \in DOMAIN S.A, p \in Last(S)}
    [] Profile = "clone" ->
            (IF "c" \in DOMAIN st.sets THEN
                {[op |-> "rel", h |-> "s"]} \cup {AddP("c")}
             ELSE IF "s" \in DOMAIN st.sets THEN
                {Clone("s", "c", p, m) : p \in BOOLEAN, m \in {<<>>, <<<<"x", "n">>, <<"n", "x">>>>, <<<<"x", "w">>>>, <<<<"zz", "n">>>>}}
                \cup {Schema("s", "c", m) : m \in {<<>>, <<<<"x", "n">>, <<"n", "x">>>>, <<<<"n", "w">>>>}}
             ELSE {})
            \cup (IF "s" \in DOMAIN st.sets THEN
                {AddP("s"), SetV("s", "a", 0, <<7, Len(hist)>>), Reg("s", "b", "p2"), Ren("s", "b", 0, "p3"), SetF("s", "fa", <<F2>>),
                 AddA("s", "x" \o ToString(Len(hist)), "more" \o ToString(Len(hist)), INT, 1)} ELSE {})
    [] Profile = "merge" ->
         LET S == st.sets["s"] D == st.sets["d"] IN
            {AddP(h) : h \in {x \in {"s", "d"} : N(x) < 3}}
            \cup {SetV("s", "a", S.n - 1, <<x>>) : x \in IF S.n > 0 THEN {1, 2} ELSE {}}
            \cup {SetV("d", "da", D.n - 1, <<x>>) : x \in IF D.n > 0 THEN {1, 2} ELSE {}}
            \cup {SetV("d", "dx", D.n - 1, <<10 + Len(hist)>>) : x \in IF D.n > 0 THEN {1} ELSE {}}
            \cup {SetV("s", "c", S.n - 1, <<20 + Len(hist)>>) : x \in IF S.n > 0 THEN {1} ELSE {}}
            \cup {Merge("s", "d", ids) : ids \in {<<>>, <<"id">>, <<"id", "x">>, <<"id2">>, <<"id", "zz">>}}
    [] Profile = "merge2" ->
         LET S == st.sets["s"] D == st.sets["d"] IN
            {AddA("d", "d2", "id2", INT, 1), AddA("d", "dw", "wide", FLOAT, 40), AddF("d", "fd", "g", INT, 2)}
            \cup {AddP("s"), AddP("d")}
            \cup {SetV("s", "a", S.n - 1, <<1>>) : x \in IF S.n > 0 THEN {1} ELSE {}}
            \cup {SetV("s", "k2", S.n - 1, <<x>>) : x \in IF S.n > 0 THEN {1, 2} ELSE {}}
            \cup {SetV("d", "da", D.n - 1, <<1>>) : x \in IF D.n > 0 THEN {1} ELSE {}}
            \cup {SetV("d", "d2", D.n - 1, <<x>>) : x \in IF D.n > 0 /\ "id2" \in Names(D.A) THEN {1} ELSE {}}
            \cup {Merge("s", "d", ids) : ids \in {<<"id", "id2">>, <<"id2", "id">>, <<"id2">>}}
    [] Profile = "mergestr" ->
         LET S == st.sets["s"] D == st.sets["d"] IN
            {Reg("s", "a", s) : s \in {"p", "q"}} \cup {Reg("d", "da", s) : s \in {"q", "r"}}
            \cup {RegF("s", "fa", s) : s \in {"q", "w"}}
            \cup {SetF("s", "fa", <<0>>) : x \in IF Len(S.F[1].s) > 0 THEN {1} ELSE {}}
            \cup {SetF("d", "fda", <<x>>) : x \in {0, 1}}
            \cup {SetV("d", "da", 0, <<x>>) : x \in Toks(D.A, 1)}
            \cup {Ren("d", "da", 0, "r2")}
            \cup {Merge("s", "d", <<>>)}

(***************************************************************************)
(* Ghost state: what the properties talk about, kept independently.        *)
(*  last  : <<set, attribute name, index>> -> last value written           *)
(*  born  : <<set, attribute handle>> -> attribute name                    *)
(***************************************************************************)
GhostNext(e) ==
  CASE e.op = "set" /\ e.i < st.sets[e.h].n ->
         [ghost EXCEPT !.last = Put(@, <<e.h, st.sets[e.h].A[st.av[e.k].i].n, e.i>>, e.v)]
    [] e.op = "setF" -> [ghost EXCEPT !.flast = Put(@, <<e.h, st.sets[e.h].F[st.fv[e.k].i].n>>, e.v)]
    [] e.op = "rel" -> [ghost EXCEPT !.last = [x \in {y \in DOMAIN ghost.last : y[1] # e.h} |-> ghost.last[x]],
                                     !.flast = [x \in {y \in DOMAIN ghost.flast : y[1] # e.h} |-> ghost.flast[x]]]
    [] OTHER -> ghost

RECURSIVE RunFrom(_, _)
RunFrom(s, es) == IF es = <<>> THEN s ELSE RunFrom(StoreNext(s, Head(es)), Tail(es))
RECURSIVE GhostFrom(_, _, _)
GhostFrom(g, s, es) ==
  IF es = <<>> THEN g
  ELSE LET e == Head(es)
           g1 == CASE e.op = "set" -> [g EXCEPT !.last = Put(@, <<e.h, s.sets[e.h].A[s.av[e.k].i].n, e.i>>, e.v)]
                   [] e.op = "setF" -> [g EXCEPT !.flast = Put(@, <<e.h, s.sets[e.h].F[s.fv[e.k].i].n>>, e.v)]
                   [] OTHER -> g
       IN GhostFrom(g1, StoreNext(s, e), Tail(es))

Init == /\ hist = <<>>
        /\ st = RunFrom(StoreInit, Prefix)
        /\ ghost = GhostFrom([last |-> Nil, flast |-> Nil], StoreInit, Prefix)
Do(e) ==
  /\ "h" \in DOMAIN e => e.h \in DOMAIN st.sets
  /\ "h2" \in DOMAIN e => e.h2 \notin DOMAIN st.sets
  /\ StorePre(st, e)
  /\ st' = StoreNext(st, e)
  /\ hist' = Append(hist, e)
  /\ ghost' = GhostNext(e)
  \* every transition of the model is printed as a program
  /\ PrintT(<<"PROG", ToJson(Prefix \o hist')>>)
Next == Len(hist) < Depth /\ \E e \in Alphabet : Do(e)
Spec == Init /\ [][Next]_vars
StateView == IF Mode = "paths" THEN <<st, hist>> ELSE <<st, Len(hist)>>

(***************************************************************************)
(* The properties.                                                         *)
(***************************************************************************)
Ev == hist'[Len(hist')]
Changed == IF Len(hist') > Len(hist) THEN Ev ELSE [op |-> "none"]
NoMerge == \A i \in DOMAIN hist : hist[i].op # "merge"

\* P01/P04: a cell holds the last value written to it, and is unwritten otherwise
LastWrite ==
  NoMerge => \A h \in DOMAIN st.sets : h # "c" =>
    LET S == st.sets[h] IN
    /\ \A i \in DOMAIN S.A, k \in 0..S.n-1 :
         LET key == <<h, S.A[i].n, k>> IN
         IF key \in DOMAIN ghost.last THEN k \in DOMAIN S.C[i] /\ S.C[i][k] = ghost.last[key] ELSE k \notin DOMAIN S.C[i]
    /\ \A i \in DOMAIN S.F :
         LET key == <<h, S.F[i].n>> IN
         IF key \in DOMAIN ghost.flast THEN S.F[i].v = ghost.flast[key] ELSE S.F[i].v = <<>>
TypeOK == \A h \in DOMAIN st.sets : LET S == st.sets[h] IN
    /\ Len(S.C) = Len(S.A) /\ Len(S.D) = Len(S.A)
    /\ \A i, j \in DOMAIN S.A : S.A[i].n = S.A[j].n => i = j
    /\ \A i, j \in DOMAIN S.F : S.F[i].n = S.F[j].n => i = j
    /\ \A i \in DOMAIN S.A : DOMAIN S.C[i] \subseteq 0..S.n-1 /\ \A k \in DOMAIN S.C[i] : Len(S.C[i][k]) = S.A[i].c

\* P03: every string in a table resolves to a token whose entry it is
TablesOf(S) == {S.A[i] : i \in DOMAIN S.A} \cup {[S.F[i] EXCEPT !.v = <<>>] : i \in DOMAIN S.F}
Coherent == \A h \in DOMAIN st.sets : \A a \in TablesOf(st.sets[h]) :
    /\ \A s \in Strs \cup Range(a.s) : \E r \in -1..Len(a.s)-1 : LookupOk(a, s, r)
    /\ \A s \in Strs : (s \in Range(a.s)) = ~LookupOk(a, s, -1)
    /\ \A s \in Range(a.s) : \A r \in 0..Len(a.s)-1 : LookupOk(a, s, r) => a.s[r+1] = s
\* P03: registering never changes an entry
IsPrefixOf(x, y) == Len(x) <= Len(y) /\ SubSeq(y, 1, Len(x)) = x
TokensStable == [][Changed.op \in {"reg", "regF"} =>
    /\ \A i \in DOMAIN st.sets[Ev.h].A : IsPrefixOf(st.sets[Ev.h].A[i].s, st'.sets[Ev.h].A[i].s)
    /\ \A i \in DOMAIN st.sets[Ev.h].F : IsPrefixOf(st.sets[Ev.h].F[i].s, st'.sets[Ev.h].F[i].s)]_vars
RenameExact == [][Changed.op = "ren" =>
    LET a == st.sets[Ev.h].A[st.av[Ev.k].i]  b == st'.sets[Ev.h].A[st.av[Ev.k].i] IN
    /\ Len(a.s) = Len(b.s)
    /\ \A t \in 0..Len(a.s)-1 : b.s[t+1] = (IF t = Ev.tok THEN Ev.s ELSE a.s[t+1])
    /\ Ev.tok \in 0..Len(a.s)-1 => \A r \in -1..Len(a.s)-1 : LookupOk(b, Ev.s, r) => r = Ev.tok]_vars

\* P06 and everything else: an operation changes only the set it is applied to
Touched(e) == (IF "h" \in DOMAIN e /\ e.op \notin {"clone", "schema"} THEN {e.h} ELSE {}) \cup (IF "h2" \in DOMAIN e THEN {e.h2} ELSE {})
Frame == [][Changed.op # "none" => \A h \in DOMAIN st.sets \cap DOMAIN st'.sets : h \notin Touched(Ev) => st'.sets[h] = st.sets[h]]_vars
CloneComplete == [][Changed.op = "clone" =>
    LET S == st.sets[Ev.h]  T == st'.sets[Ev.h2] IN
    /\ T.n = (IF Ev.p THEN S.n ELSE 0) /\ Len(T.F) = Len(S.F) /\ Len(T.A) = (IF Ev.p THEN Len(S.A) ELSE 0)
    /\ \A i \in DOMAIN T.F : T.F[i].v = S.F[i].v /\ T.F[i].s = S.F[i].s /\ T.F[i].t = S.F[i].t
    /\ \A i \in DOMAIN T.A : T.C[i] = S.C[i] /\ T.A[i].s = S.A[i].s /\ T.A[i].t = S.A[i].t /\ T.A[i].c = S.A[i].c
    /\ \A j \in DOMAIN Ev.m : \A i \in DOMAIN T.A : S.A[i].n = Ev.m[j][1] => T.A[i].n = Ev.m[j][2]]_vars

\* P07, stated particle by particle
Str(a, v) == IF a.t = STR THEN [c \in DOMAIN v |-> IF v[c] \in 0..Len(a.s)-1 THEN a.s[v[c]+1] ELSE ToString(v[c])] ELSE v
CellAs(S, nm, k) ==          \* the value of attribute nm of particle k, strings resolved
  LET i == IndexOf(S.A, nm) IN IF k \in DOMAIN S.C[i] THEN <<Str(S.A[i], S.C[i][k])>> ELSE <<>>
MergeRight == [][Changed.op = "merge" =>
    LET B == st.sets[Ev.h]  D == st.sets[Ev.d]  M == st'.sets[Ev.h]
        J == Common(B, D, Ev.ids)
        has(S, j) == \E i \in DOMAIN S.A : S.A[i].n = Ev.ids[j] /\ S.A[i].t = INT
        use == (\E j \in DOMAIN Ev.ids : has(B, j) /\ has(D, j)) /\ \A j \in DOMAIN Ev.ids : has(B, j) = has(D, j)
        key(S, k) == [j \in J |-> S.C[IndexOf(S.A, Ev.ids[j])][k][1]]
        hit(k) == use /\ \E b \in 0..B.n-1 : key(B, b) = key(D, k)
        app == {k \in 0..D.n-1 : ~hit(k)}
    IN /\ M.n = B.n + Cardinality(app)
       /\ Names(M.A) = Names(B.A) \cup Names(D.A) /\ Names(M.F) = Names(B.F) \cup Names(D.F)
       /\ \A i \in DOMAIN B.A : M.A[i].n = B.A[i].n /\ IsPrefixOf(B.A[i].s, M.A[i].s)
       \* base particles with no match keep their values, new attributes are zero there
       /\ \A b \in 0..B.n-1 : (~use \/ \A k \in 0..D.n-1 : key(D, k) # key(B, b)) =>
            /\ \A nm \in Names(B.A) : CellAs(M, nm, b) = CellAs(B, nm, b)
            /\ \A nm \in Names(D.A) \ Names(B.A) : M.C[IndexOf(M.A, nm)][b] = Zero(M.A[IndexOf(M.A, nm)])
       \* appended particles come in order and carry the delta's values
       /\ \A k \in app : LET pos == B.n + Cardinality({x \in app : x < k}) IN
            \A nm \in Names(D.A) : CellAs(M, nm, pos) = CellAs(D, nm, k)
       \* a matched base particle has the values of its last match
       /\ use => \A b \in 0..B.n-1 : \A k \in 0..D.n-1 :
            (key(D, k) = key(B, b) /\ \A x \in k+1..D.n-1 : key(D, x) # key(B, b)) =>
               /\ \A nm \in Names(D.A) : CellAs(M, nm, b) = CellAs(D, nm, k)
               /\ \A nm \in Names(B.A) \ Names(D.A) : CellAs(M, nm, b) = CellAs(B, nm, b)
       /\ \A i \in DOMAIN D.F : LET f == M.F[IndexOf(M.F, D.F[i].n)] IN Str(f, f.v) = Str(D.F[i], D.F[i].v)
       /\ \A i \in DOMAIN B.F : B.F[i].n \notin Names(D.F) => M.F[i] = B.F[i]]_vars
=============================================================================
