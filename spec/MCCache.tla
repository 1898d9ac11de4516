------------------------------ MODULE MCCache ------------------------------
(***************************************************************************)
(* All short histories of cached reads, releases, ordinary reads and       *)
(* changes of the files, over System.  The sharing guarantees are stated   *)
(* here over the history alone and checked against what System allows;     *)
(* every history is printed as a program for the real library.             *)
(***************************************************************************)
EXTENDS System, Json, IOUtils
Profile == IOEnv.PROFILE
Depth == atoi(IOEnv.DEPTH)
DecImpl(x) == 0
Same(x) == x

VARIABLES st, hist
vars == <<st, hist>>

\* file content number v
X(v) == [n |-> 2, a |-> <<[n |-> "position", t |-> VECTOR, c |-> 3, s |-> <<>>], [n |-> "ver", t |-> INT, c |-> 1, s |-> <<>>]>>,
         f |-> <<>>, d |-> <<<<V0, <<F1, F0, F1>>>>, <<<<v>>, <<v>>>>>>]
Ver(S) == S.C[2][0][1]
Put_(p, v) == [op |-> "put", path |-> p, fmt |-> "BGEO", x |-> X(v)]
Junk(p) == [op |-> "put", path |-> p, fmt |-> "JUNK"]
Unlink(p) == [op |-> "unlink", path |-> p]
Rel(h) == [op |-> "rel", h |-> h]

Fl == IF Profile = "two" THEN {"f.bgeo", "g.bgeo"} ELSE {"f.bgeo", "./f.bgeo"}
Handles == IF Profile = "deep" THEN {"c1", "c2", "c3"} ELSE {"c1", "c2", "c3"}
FreeH == Handles \ DOMAIN st.sets
NextH == CHOOSE h \in FreeH : h = "c1" \/ (h = "c2" /\ "c1" \notin FreeH) \/ (FreeH = {"c3"})
AnySeq(H) == LET RECURSIVE Go(_)
                 Go(Q) == IF Q = {} THEN <<>> ELSE LET q == CHOOSE q \in Q : TRUE IN <<q>> \o Go(Q \ {q})
             IN Go(H)
Cached(p, sort) ==
  LET H == Holders(st, p)  o == Outcome(st, p)
      r == IF H # {} THEN [ok |-> TRUE, msg |-> FALSE, same |-> AnySeq(H), x |-> X(Ver(st.sets[CHOOSE h \in H : TRUE]))]
           ELSE IF o = "data" THEN [ok |-> TRUE, msg |-> FALSE, same |-> <<>>, x |-> X(Ver(FileAt(st, p).S))]
           ELSE [ok |-> FALSE, msg |-> TRUE, same |-> <<>>]
  IN [op |-> "cached", path |-> p, h2 |-> NextH, sort |-> sort, verbose |-> TRUE, obs |-> "d", r |-> r]
Read(p) ==
  LET r == IF Outcome(st, p) = "data" THEN [ok |-> TRUE, msg |-> FALSE, x |-> X(Ver(FileAt(st, p).S))] ELSE [ok |-> FALSE, msg |-> TRUE]
  IN [op |-> "read", path |-> p, h2 |-> NextH, verbose |-> TRUE, obs |-> "d", r |-> r]

Main == "f.bgeo"
Alphabet ==
  (IF FreeH = {} THEN {} ELSE
     {Cached(p, s) : p \in Fl, s \in (IF Profile = "sort" THEN BOOLEAN ELSE {FALSE})}
     \cup (IF Profile = "deep" THEN {} ELSE {Read(Main)}))
  \cup {Rel(h) : h \in DOMAIN st.sets}
  \cup {Put_(Main, Len(hist) + 10)}
  \cup (IF Exists(st, Main) THEN {Unlink(Main)} ELSE {})
  \cup (IF Profile = "deep" THEN {} ELSE {Junk(Main)})
Init == hist = <<>> /\ st = SysNext(SysInit, Put_(Main, 1))
Do(e) ==
  /\ SysPre(st, e) /\ SysOk(st, e)
  /\ st' = SysNext(st, e)
  /\ hist' = Append(hist, e)
  /\ PrintT(<<"PROG", ToJson(<<Put_(Main, 1)>> \o hist')>>)
Next == Len(hist) < Depth /\ \E e \in Alphabet : Do(e)

\* nothing the alphabet expects is refused by System (the specification is not contradictory)
Enabled_ == \A e \in Alphabet : SysPre(st, e) => SysOk(st, e)

(* ---- the guarantees over the history -------------------------------------*)
Last == hist'[Len(hist')]
Reads(h, p) == {i \in DOMAIN h : h[i].op = "cached" /\ h[i].path = p /\ h[i].r.ok}
\* index of the event that released what event i made, 0 if none did
RelOf(h, i) == LET R == {j \in DOMAIN h : j > i /\ h[j].op = "rel" /\ h[j].h = h[i].h2} IN IF R = {} THEN 0 ELSE CHOOSE j \in R : \A k \in R : j <= k
OpenAt(h, p, n) == {i \in Reads(h, p) : i <= n /\ (RelOf(h, i) = 0 \/ RelOf(h, i) > n)}
\* as many releases as reads
Balance == \A p \in Fl : Cardinality(Holders(st, p)) = Cardinality(OpenAt(hist, p, Len(hist)))
OneCopy == \A p \in Fl : \A a, b \in Holders(st, p) : st.obj[a] = st.obj[b]
Apart == \A h \in DOMAIN st.sets, g \in DOMAIN st.sets : st.obj[h] = st.obj[g] => h = g \/ \E p \in Fl : {h, g} \subseteq Holders(st, p)
\* a holder sees the content at the time of the first of the unbroken chain of holders
FileVer(h, p, n) ==  \* content of the file after n events; 0 if none
  LET q == Norm(p)  W == {i \in 1..n : h[i].op \in {"put", "unlink"} /\ Norm(h[i].path) = q} IN
  IF W = {} THEN (IF q = Main THEN 1 ELSE 0)
  ELSE LET w == h[CHOOSE i \in W : \A j \in W : j <= i] IN IF w.op = "put" /\ w.fmt = "BGEO" THEN w.x.d[2][1][1] ELSE 0
RECURSIVE LoadOf(_, _, _)
LoadOf(h, p, i) == \* the read that loaded what read i returned
  LET O == OpenAt(h, p, i - 1) IN IF O = {} THEN i ELSE LoadOf(h, p, CHOOSE j \in O : \A k \in O : k <= j)
Content_ == \A p \in Fl : \A i \in OpenAt(hist, p, Len(hist)) :
             Ver(st.sets[hist[i].h2]) = FileVer(hist, p, LoadOf(hist, p, i) - 1)
FailsOnlyWithout == \A i \in DOMAIN hist : hist[i].op = "cached" =>
  (hist[i].r.ok <=> (OpenAt(hist, hist[i].path, i - 1) # {} \/ FileVer(hist, hist[i].path, i - 1) # 0))
=============================================================================
