------------------------------ MODULE Cluster ------------------------------
(***************************************************************************)
(* computeClustering.  Positions are in 1/4 units (Dec with scale 4).      *)
(* A cluster event carries                                                 *)
(*   nn    neighbours asked for         R    search radius in 1/4 units    *)
(*   ins   inner radius, percent of R   conn connections                   *)
(*   den   density in quarters                                             *)
(* and observes e.r: ok, and for a result its literal content x (as in a   *)
(* dump event) and s, the same with floats as integers in 1/64 units.      *)
(***************************************************************************)
EXTENDS Store

RECURSIVE IsqrtBetween(_, _, _)
IsqrtBetween(x, lo, hi) ==           \* lo^2 <= x < hi^2
  IF hi = lo + 1 THEN lo
  ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN IsqrtBetween(x, m, hi) ELSE IsqrtBetween(x, lo, m)
Isqrt(x) == IF x <= 0 THEN 0 ELSE IsqrtBetween(x, 0, 46341)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Ceil(a, b) == (a + b - 1) \div b

(* How many particles are generated towards a neighbour at squared distance *)
(* d: the integer part of density * len * w, where w is 1 inside the inner   *)
(* radius and smoothstep of the remaining fraction of the shell outside it.  *)
(* Given as the set of values floating point evaluation may yield.           *)
CountExact(den, L, a, b) ==          \* floor(den*L/16 * smoothstep(a/b)), exact
  LET num == den * L * (a * a * (3*b - 2*a))
      dn == 16 * b * b * b
      v == num \div dn
  IN IF num % dn = 0 /\ v > 0 THEN {v - 1, v} ELSE {v}
CountShell(den, d, ins, R) ==
  LET l0 == Isqrt(256 * d)           \* len is between l0/16 and (l0+1)/16
      l1 == l0 + 1
      bot == (100 - ins) * 16 * R
      tlo == Max2(0, (512 * 100 * Max2(0, 16*R - l1)) \div bot)
      thi == Ceil(512 * 100 * Max2(0, 16*R - l0), bot)
      ss(t) == IF t >= 512 THEN 512 ELSE (t * t * (1536 - 2*t)) \div 262144
      lo == (den * l0 * ss(tlo)) \div 131072
      hi == (den * l1 * Min2(512, ss(thi) + 1)) \div 131072
  IN lo..hi
CountInner(den, d) ==
  LET x == den * den * d
      eps == IF Isqrt(d) * Isqrt(d) = d THEN 0 ELSE x \div 4000000 + 1
  IN {Isqrt(x - eps) \div 16, Isqrt(x + eps) \div 16}
Counts(den, d, ins0, R) ==
  LET ins == Max2(0, Min2(100, ins0))
      L == Isqrt(d)
      a0 == 100 * (R - L)  b0 == (100 - ins) * R  g == Gcd(a0, b0)
      a == a0 \div g  b == b0 \div g
  IN IF 10000 * d <= ins * ins * R * R THEN CountInner(den, d)      \* len <= inner radius
     ELSE IF L * L = d /\ b <= 200 /\ (d = 0 \/ den * L <= 1900000000 \div (16 * b * b * b)) THEN CountExact(den, L, a, b)
     ELSE CountShell(den, d, ins, R)

IdIdx(S) == NameIdx(S.A, "id")
Clusterable(S) ==
  /\ PosIdx(S) # 0 /\ S.A[PosIdx(S)].t \in {VECTOR, FLOAT} /\ S.A[PosIdx(S)].c = 3
  /\ IdIdx(S) # 0 /\ S.A[IdIdx(S)].t = INT /\ S.A[IdIdx(S)].c = 1
ClusterPre(S, e) ==
  Clusterable(S) => /\ AllPos(S) /\ DOMAIN S.C[IdIdx(S)] = 0..S.n-1
                    /\ "clusterId" \notin Names(S.A)

Id(S, k) == S.C[IdIdx(S)][k][1]
P3(S, k) == [c \in 1..3 |-> Dec(S.C[PosIdx(S)][k][c])]
\* the possible answers of the N-nearest query around particle p
FoundSets(S, e, p) ==
  LET q == P3(S, p)
      d == [k \in 0..S.n-1 |-> Dist(P3(S, k), q)]
      In == {k \in 0..S.n-1 : d[k] < e.R * e.R}
      want == Min2(e.nn, Cardinality(In))
      Closer(k) == {x \in In : d[x] < d[k]}
      Sure == {k \in In : Cardinality({x \in In : d[x] <= d[k]}) <= want}
      Tie == {k \in In \ Sure : Cardinality(Closer(k)) < want}
  IN IF ~Sortable(S) THEN {{}}
     ELSE IF Sure = In THEN {In}
     ELSE {Sure \cup T : T \in {X \in SUBSET Tie : Cardinality(X) = want - Cardinality(Sure)}}
RECURSIVE ById(_, _)
ById(S, X) == IF X = {} THEN <<>>
              ELSE LET m == CHOOSE k \in X : \A y \in X : Id(S, k) <= Id(S, y)
                   IN <<m>> \o ById(S, X \ {m})
Neighbours(S, e, p, F) ==
  LET s == ById(S, {k \in F : Id(S, k) # Id(S, p)})
  IN SubSeq(s, 1, Max2(0, Min2(e.conn, Len(s))))

\* value of component c of float attribute i in 1/64 units, of a source particle
Scaled(e, p0, i, c) == e.r.s.d[i][p0 + 1][c]
Abs(x) == IF x < 0 THEN -x ELSE x
\* generated particle g (row of the result) between source rows o and b
Between(S, e, g, p, nb, start) ==
  LET Fl == {i \in DOMAIN S.A : ~IsInt(S.A[i].t)}
      cells == {<<i, c>> : i \in Fl, c \in 1..60} 
      comp == {x \in cells : x[2] <= S.A[x[1]].c /\ p \in DOMAIN S.C[x[1]] /\ nb \in DOMAIN S.C[x[1]]}
      from(x) == Scaled(e, start[p], x[1], x[2])
      to(x) == Scaled(e, start[nb], x[1], x[2])
      at(x) == Scaled(e, g, x[1], x[2])
      span(x) == to(x) - from(x)
      ref == IF comp = {} THEN <<0, 0>> ELSE CHOOSE x \in comp : \A y \in comp : Abs(span(y)) <= Abs(span(x))
  IN /\ \A x \in comp : /\ at(x) >= Min2(from(x), to(x)) - 1
                        /\ at(x) <= Max2(from(x), to(x)) + 1
                        /\ Abs((at(x) - from(x)) * span(ref) - (at(ref) - from(ref)) * span(x)) <= 2 * (Abs(span(ref)) + Abs(span(x))) + 2
     /\ \A i \in DOMAIN S.A \ Fl : p \in DOMAIN S.C[i] => e.r.x.d[i][g + 1] = S.C[i][p]

ClusterOk(S, e) ==
  IF ~Clusterable(S) THEN ~e.r.ok
  ELSE
    /\ e.r.ok
    /\ Len(e.r.x.a) = Len(S.A) + 1
    /\ \A i \in DOMAIN S.A : /\ e.r.x.a[i].n = S.A[i].n /\ e.r.x.a[i].t = S.A[i].t /\ e.r.x.a[i].c = S.A[i].c
                             /\ e.r.x.a[i].s = S.A[i].s
    /\ LET ca == e.r.x.a[Len(S.A) + 1]
           m == e.r.x.n
           cid == [k \in 0..m-1 |-> e.r.x.d[Len(S.A) + 1][k + 1][1]]
           zeros == {k \in 0..m-1 : cid[k] = 0}
           start == [p \in 0..S.n-1 |-> CHOOSE z \in zeros : Cardinality({y \in zeros : y < z}) = p]
           end(p) == IF p = S.n - 1 THEN m ELSE start[p + 1]
           RECURSIVE Match(_, _, _)
           Match(p, at, nbs) ==
             IF nbs = <<>> THEN at = end(p)
             ELSE \E c \in Counts(e.den, Dist(P3(S, p), P3(S, Head(nbs))), e.ins, e.R) :
                    /\ at + c <= end(p)
                    /\ \A g \in at..at+c-1 : Between(S, e, g, p, Head(nbs), start)
                    /\ Match(p, at + c, Tail(nbs))
       IN /\ ca.n = "clusterId" /\ ca.t = INT /\ ca.c = 1
          /\ Cardinality(zeros) = S.n
          /\ (S.n = 0 => m = 0)
          /\ (S.n > 0 => start[0] = 0)
          /\ \A k \in 1..m-1 : k \notin zeros => cid[k] = cid[k-1] + 1
          /\ \A p \in 0..S.n-1 :
               /\ \A i \in DOMAIN S.A : p \in DOMAIN S.C[i] => e.r.x.d[i][start[p] + 1] = S.C[i][p]
               /\ \E F \in FoundSets(S, e, p) : Match(p, start[p] + 1, Neighbours(S, e, p, F))
\* the set handed back
ClusterOf(S, e) ==
  LET x == e.r.x
      T == [EmptySet("simple") EXCEPT !.n = x.n,
              !.A = [i \in DOMAIN x.a |-> [n |-> x.a[i].n, t |-> x.a[i].t, c |-> x.a[i].c, s |-> x.a[i].s, p |-> Nil]],
              !.C = [i \in DOMAIN x.a |-> [k \in 0..x.n-1 |-> x.d[i][k+1]]],
              !.D = [i \in DOMAIN x.a |-> Nil]]
  IN T
=============================================================================
