------------------------------- MODULE MCGeom ------------------------------
(***************************************************************************)
(* Every arrangement of a few particles on a small grid, in every order of *)
(* addition; in each, every box and nearest query of a small family, or    *)
(* every clustering of a small family of parameters.  What Store and       *)
(* Cluster accept as an answer is compared with the geometry, over all     *)
(* candidate answers; each arrangement is printed as a program with all    *)
(* its queries and run in the library.  Coordinates are in quarters.       *)
(***************************************************************************)
EXTENDS Cluster, Json, IOUtils
Profile == IOEnv.PROFILE
Depth == atoi(IOEnv.DEPTH)
Mode == IOEnv.MODE
Bits == <<"00000000", "3e800000", "3f000000", "3f400000", "3f800000">>      \* 0, 1/4, 1/2, 3/4, 1
DecImpl(x) == (CHOOSE i \in DOMAIN Bits : Bits[i] = x) - 1

VARIABLES pts,           \* the particles, in order of addition
          S              \* the sorted set of them
Grid == CASE Profile = "line"  -> {<<x, 0, 0>> : x \in {0, 2, 4}}
          [] Profile = "axis"  -> {<<0, 2, x>> : x \in {0, 2}}
          [] Profile = "plane" -> {<<x, y, 1>> : x \in {0, 2}, y \in {0, 2}}
          [] Profile = "cube"  -> {<<x, y, z>> : x \in {0, 2}, y \in {0, 2}, z \in {0, 2}}
          [] Profile = "chain" -> {<<x, 0, 0>> : x \in {0, 2, 4}}
          [] Profile = "bent"  -> {<<0, 0, 0>>, <<3, 4, 0>>, <<3, 0, 0>>, <<0, 4, 0>>}
Cl == Profile \in {"chain", "bent"}
Pos(p) == [c \in 1..3 |-> Bits[p[c] + 1]]
Ident(i) == IF Mode = "down" THEN 10 - i ELSE IF Mode = "same" THEN 7 ELSE i
RECURSIVE Place(_, _)
Place(ps, i) ==
  IF i > Len(ps) THEN <<>>
  ELSE <<[op |-> "addP", h |-> "s"], [op |-> "set", h |-> "s", k |-> "p", i |-> i - 1, v |-> Pos(ps[i])], [op |-> "set", h |-> "s", k |-> "d", i |-> i - 1, v |-> <<Ident(i)>>]>>
       \o Place(ps, i + 1)
MadeOf(ps) == <<[op |-> "new", h2 |-> "s", kind |-> "simple"], [op |-> "addA", h |-> "s", k |-> "p", n |-> "position", t |-> VECTOR, c |-> 3, r |-> [ok |-> TRUE]],
          [op |-> "addA", h |-> "s", k |-> "d", n |-> "id", t |-> INT, c |-> 1, r |-> [ok |-> TRUE]]>> \o Place(ps, 1)
Made == MadeOf(pts)
Sort == <<[op |-> "sort", h |-> "s"]>>
RECURSIVE Run(_, _)
Run(s, es) == IF es = <<>> THEN s ELSE Run(StoreNext(s, Head(es)), Tail(es))
SetFor(ps) == Run(StoreInit, MadeOf(ps) \o Sort).sets["s"]

(* ---- the queries ---------------------------------------------------------*)
Boxes == CASE Profile = "line"  -> {[a |-> <<x, 0, 0>>, b |-> <<y, 0, 0>>] : x \in -1..5, y \in -1..5}
           [] Profile = "axis"  -> {[a |-> <<0, y, x>>, b |-> <<0, 2, z>>] : x \in -1..3, z \in -1..3, y \in {1, 2}}
           [] Profile = "plane" -> {[a |-> <<x, y, 0>>, b |-> <<u, v, 2>>] : x \in {0, 1, 2}, y \in {0, 1}, u \in {0, 1, 2}, v \in {1, 2}}
           [] OTHER             -> {[a |-> <<x, y, z>>, b |-> <<u, v, w>>] : x \in {0, 1}, y \in {0, 1}, z \in {0, 1}, u \in {1, 2}, v \in {1, 2}, w \in {1, 2}}
Nears == CASE Profile = "line"  -> {[q |-> <<x, 0, 0>>, N |-> n, R |-> r] : x \in -1..5, n \in 1..Len(pts)+1, r \in {1, 2, 3, 9}}
           [] Profile = "axis"  -> {[q |-> <<0, 2, x>>, N |-> n, R |-> r] : x \in -1..3, n \in 1..Len(pts)+1, r \in {1, 2, 3}}
           [] Profile = "plane" -> {[q |-> <<x, y, 1>>, N |-> n, R |-> r] : x \in {0, 1, 2}, y \in {0, 1}, n \in 1..Len(pts)+1, r \in {2, 3}}
           [] OTHER             -> {[q |-> <<x, y, z>>, N |-> n, R |-> r] : x \in {0, 1}, y \in {0, 1}, z \in {0, 2}, n \in 1..Len(pts), r \in {2, 3, 9}}
Clusterings == {[nn |-> n, R |-> r, ins |-> i, conn |-> k, den |-> d] : n \in {1, 2, 4}, r \in {2, 3, 5, 9}, i \in {0, 40, 100}, k \in {1, 2}, d \in {4, 7}}
RECURSIVE Seq_(_)
Seq_(Q) == IF Q = {} THEN <<>> ELSE LET q == CHOOSE q \in Q : TRUE IN <<q>> \o Seq_(Q \ {q})
BoxE(x) == [op |-> "box", h |-> "s", scale |-> 4, a |-> x.a, b |-> x.b, pre |-> <<>>]
NearE(x) == [op |-> "near", h |-> "s", scale |-> 4, q |-> x.q, N |-> x.N, R |-> x.R]
Queries == Seq_({BoxE(x) : x \in Boxes}) \o Seq_({NearE(x) : x \in Nears})
RECURSIVE Clustered(_, _)
Clustered(qs, j) == IF qs = <<>> THEN <<>> ELSE <<[op |-> "cluster", h |-> "s", h2 |-> "c" \o ToString(j)] @@ Head(qs)>> \o Clustered(Tail(qs), j + 1)
Program == IF Cl THEN Made \o Clustered(Seq_(Clusterings), 1) ELSE Made \o Sort \o Queries

Init == pts = <<>> /\ S = SetFor(<<>>)
Next == Len(pts) < Depth /\ \E g \in Grid : pts' = Append(pts, g) /\ S' = SetFor(pts')
Emit == PrintT(<<"PROG", ToJson(Program)>>)

(* ---- the guarantees, over all candidate answers --------------------------*)
Ks == 0..Len(pts)-1
At(k) == pts[k + 1]
D2(k, q) == (At(k)[1]-q[1])*(At(k)[1]-q[1]) + (At(k)[2]-q[2])*(At(k)[2]-q[2]) + (At(k)[3]-q[3])*(At(k)[3]-q[3])
Within(k, a, b) == \A c \in 1..3 : (a[c] <= At(k)[c] /\ At(k)[c] <= b[c]) \/ (b[c] <= At(k)[c] /\ At(k)[c] <= a[c])
BoxExact == ~Cl /\ Len(pts) <= 4 => \A x \in Boxes, X \in SUBSET Ks :
  BoxOk(S, BoxE(x) @@ [r |-> Seq_(X)]) = (\A k \in Ks : (k \in X) = Within(k, x.a, x.b))
\* an answer X is right: as many as there are, at most N, all inside, none outside it closer than one in it
RightNear(x, X) ==
  /\ \A k \in X : D2(k, x.q) < x.R * x.R
  /\ Cardinality(X) <= x.N
  /\ Cardinality(X) < x.N => \A k \in Ks \ X : D2(k, x.q) >= x.R * x.R
  /\ \A k \in Ks \ X, j \in X : D2(k, x.q) >= D2(j, x.q)
Far(s) == CHOOSE y \in s : \A z \in s : z <= y
Answer(x, X) == LET i == Seq_(X)  d == [j \in DOMAIN i |-> D2(i[j], x.q)] IN
  [cnt |-> Len(i), p |-> i, d |-> d, q |-> i, e |-> d, rok |-> TRUE,
   fin |-> IF Len(i) = x.N THEN Far({d[j] : j \in DOMAIN d} \cup {0}) ELSE x.R * x.R]
NearExact == ~Cl /\ Len(pts) <= 4 => \A x \in Nears, X \in SUBSET Ks :
  LET r == Answer(x, X) IN
  /\ NearOk(S, NearE(x) @@ [r |-> r]) = RightNear(x, X)
  /\ X # {} => ~NearOk(S, NearE(x) @@ [r |-> [r EXCEPT !.d[1] = @ + 1]])
            /\ ~NearOk(S, NearE(x) @@ [r |-> [r EXCEPT !.e[1] = @ + 1]])
            /\ ~NearOk(S, NearE(x) @@ [r |-> [r EXCEPT !.cnt = @ + 1]])
            /\ ~NearOk(S, NearE(x) @@ [r |-> [r EXCEPT !.p = Append(@, @[1])]])
\* the neighbourhoods a clustering may start from are the right answers of the query around the particle
FoundExact == Cl /\ Len(pts) <= 4 => \A k \in Ks, n \in {1, 2, 4}, rr \in {2, 3, 5, 9} :
  LET e == [nn |-> n, R |-> rr, conn |-> 1] IN
  FoundSets(S, e, k) = {X \in SUBSET Ks : RightNear([q |-> At(k), N |-> n, R |-> rr], X)}
\* neighbours: other ids only, lowest ids, at most the connections asked for
PickExact == Cl /\ Len(pts) <= 4 => \A k \in Ks, cn \in {1, 2}, X \in SUBSET Ks :
  LET s == Neighbours(S, [conn |-> cn], k, X)  o == {j \in X : Id(S, j) # Id(S, k)} IN
  /\ Range(s) \subseteq o /\ Cardinality(Range(s)) = Len(s) /\ Len(s) = Min2(cn, Cardinality(o))
  /\ \A j \in o \ Range(s), i \in Range(s) : Id(S, i) <= Id(S, j)
\* the number of particles: at least one possibility, none beyond density times distance, fewer with a smaller inner radius
CountSane == Cl => \A d \in {4, 9, 16, 25}, den \in {4, 7}, ins \in {0, 40, 100}, rr \in {5, 9} : d < rr * rr =>
  LET C == Counts(den, d, ins, rr) IN
  /\ C # {} /\ \A c \in C : c >= 0 /\ 16 * c <= den * Isqrt(d)
  /\ ins = 100 => \E c \in C : 16 * c <= den * Isqrt(d) /\ den * Isqrt(d) < 16 * (c + 1)
=============================================================================
