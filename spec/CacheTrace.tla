----------------------------- MODULE CacheTrace ----------------------------
(***************************************************************************)
(* Histories of cached reads, releases and file changes by several         *)
(* threads.  TRACE: one JSON object per line, a history                    *)
(*    [th |-> sequence of threads, each a sequence of events]              *)
(* an event has inv < ret, drawn from one counter before and after it.     *)
(* A history is allowed if its events can be put in an order that respects *)
(* these times and is a history of the sequential cache below; TLC looks   *)
(* for one.  An accepted history prints ACCEPT.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Nil == [x \in {} |-> 0]

VARIABLES i, pos, fs, cache, hold
vars == <<i, pos, fs, cache, hold>>
Init == /\ i \in DOMAIN Tr
        /\ pos = [t \in DOMAIN Tr[i].th |-> 0]
        /\ fs = Nil /\ cache = Nil /\ hold = Nil
Ev(t) == Tr[i].th[t][pos[t] + 1]
More(t) == pos[t] < Len(Tr[i].th[t])
\* nothing still to come had already returned when this was invoked
First(t) == \A u \in DOMAIN pos : u # t /\ More(u) => Ev(u).ret > Ev(t).inv
Content(p) == IF p \in DOMAIN fs THEN fs[p] ELSE 0
LivePtrs == {cache[p].ptr : p \in DOMAIN cache}
Step(t) ==
  LET e == Ev(t) IN
  /\ More(t) /\ First(t)
  /\ CASE e.op = "file" -> /\ fs' = Put(fs, e.path, e.ver)      \* 0: not a particle file any more
                           /\ UNCHANGED <<cache, hold>>
       [] e.op = "cached" ->
            /\ UNCHANGED fs
            /\ IF e.path \in DOMAIN cache
               THEN /\ e.ok /\ e.ptr = cache[e.path].ptr /\ e.ver = cache[e.path].ver
                    /\ cache' = [cache EXCEPT ![e.path].n = @ + 1]
                    /\ hold' = Put(hold, e.h, [path |-> e.path, ver |-> e.ver])
               ELSE IF Content(e.file) = 0 THEN ~e.ok /\ UNCHANGED <<cache, hold>>
               ELSE /\ e.ok /\ e.ver = Content(e.file) /\ e.ptr \notin LivePtrs
                    /\ cache' = Put(cache, e.path, [ptr |-> e.ptr, ver |-> e.ver, n |-> 1])
                    /\ hold' = Put(hold, e.h, [path |-> e.path, ver |-> e.ver])
       [] e.op = "look" -> e.ver = hold[e.h].ver /\ UNCHANGED <<fs, cache, hold>>
       [] e.op = "rel" ->
            LET p == hold[e.h].path IN
            /\ UNCHANGED fs /\ hold' = Drop(hold, e.h)
            /\ cache' = IF cache[p].n = 1 THEN Drop(cache, p) ELSE [cache EXCEPT ![p].n = @ - 1]
  /\ pos' = [pos EXCEPT ![t] = @ + 1]
  /\ UNCHANGED i
  /\ (\A u \in DOMAIN pos : pos'[u] = Len(Tr[i].th[u])) => PrintT(<<"ACCEPT", i>>)
Next == \E t \in DOMAIN pos : Step(t)
=============================================================================
