------------------------------ MODULE CacheAlg -----------------------------
(***************************************************************************)
(* The protocol of readCached and freeCached, step by step, for several    *)
(* threads: lock, find, count or load (during which a failing reader       *)
(* releases its own unfinished set through the same lock), insert, unlock. *)
(* It is checked to be a refinement of the sequential cache: the step that *)
(* finishes the critical section is the atomic operation.                  *)
(* LOCK: the lock is taken; RECURSIVE: the lock may be taken again by its  *)
(* owner.  Without either the properties fail (checked too).               *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC, IOUtils
Threads == 1..atoi(IOEnv.THREADS)
Paths == {"f", "g"}
Ops == atoi(IOEnv.OPS)
Lock == IOEnv.LOCK = "1"
Recursive == IOEnv.REC = "1"

VARIABLES pc,      \* thread -> where it is
          job,     \* thread -> the operation it performs
          tmp,     \* thread -> the object it works with
          owner, depth,                    \* the lock
          table, count, live, nobj,        \* name -> object, object -> holders, objects not freed
          held,    \* thread -> sequence of objects it holds (with name)
          done,    \* operations finished
          spec,    \* sequential cache: name -> [obj, n]
          file     \* name -> readable
vars == <<pc, job, tmp, owner, depth, table, count, live, nobj, held, done, spec, file>>
Fun0 == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Init == /\ pc = [t \in Threads |-> "idle"] /\ job = [t \in Threads |-> <<"none">>] /\ tmp = [t \in Threads |-> 0]
        /\ owner = 0 /\ depth = 0 /\ table = Fun0 /\ count = Fun0 /\ live = {} /\ nobj = 0
        /\ held = [t \in Threads |-> <<>>] /\ done = 0 /\ spec = Fun0 /\ file \in [Paths -> BOOLEAN]
Start(t) ==
  /\ pc[t] = "idle" /\ done < Ops
  /\ \/ \E p \in Paths : job' = [job EXCEPT ![t] = <<"read", p>>]
     \/ held[t] # <<>> /\ job' = [job EXCEPT ![t] = <<"free", Head(held[t])>>]
  /\ pc' = [pc EXCEPT ![t] = "lock"] /\ done' = done + 1
  /\ UNCHANGED <<tmp, owner, depth, table, count, live, nobj, held, spec, file>>
Change == \* a file appears or disappears
  /\ done < Ops /\ done' = done + 1 /\ \E p \in Paths : file' = [file EXCEPT ![p] = ~@]
  /\ UNCHANGED <<pc, job, tmp, owner, depth, table, count, live, nobj, held, spec>>
Acquire(t, from, to) ==
  /\ pc[t] = from
  /\ ~Lock \/ owner = 0 \/ (Recursive /\ owner = t)
  /\ owner' = t /\ depth' = (IF owner = t THEN depth + 1 ELSE 1)
  /\ pc' = [pc EXCEPT ![t] = to]
  /\ UNCHANGED <<job, tmp, table, count, live, nobj, held, done, spec, file>>
Release(t) == depth' = depth - 1 /\ owner' = (IF depth = 1 THEN 0 ELSE owner)
Find(t) ==
  /\ pc[t] = "body" /\ job[t][1] = "read"
  /\ pc' = [pc EXCEPT ![t] = IF job[t][2] \in DOMAIN table THEN "bump" ELSE "load"]
  /\ tmp' = [tmp EXCEPT ![t] = IF job[t][2] \in DOMAIN table THEN table[job[t][2]] ELSE 0]
  /\ UNCHANGED <<job, owner, depth, table, count, live, nobj, held, done, spec, file>>
Bump(t) == \* hit: count it, unlock, return
  /\ pc[t] = "bump"
  /\ count' = [count EXCEPT ![tmp[t]] = @ + 1] /\ Release(t)
  /\ held' = [held EXCEPT ![t] = Append(@, <<job[t][2], tmp[t]>>)]
  /\ spec' = (IF job[t][2] \in DOMAIN spec THEN [spec EXCEPT ![job[t][2]].n = @ + 1] ELSE Put(spec, job[t][2], [obj |-> -1, n |-> 1]))
  /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ UNCHANGED <<job, tmp, table, live, nobj, done, file>>
Load(t) ==
  /\ pc[t] = "load" /\ nobj' = nobj + 1 /\ live' = live \cup {nobj + 1} /\ tmp' = [tmp EXCEPT ![t] = nobj + 1]
  /\ pc' = [pc EXCEPT ![t] = IF file[job[t][2]] THEN "insert" ELSE "undo"]
  /\ UNCHANGED <<job, owner, depth, table, count, held, done, spec, file>>
\* the reader gives up and releases the set it has begun
UndoFree(t) ==
  /\ pc[t] = "undobody"
  /\ live' = live \ {tmp[t]} /\ Release(t) /\ pc' = [pc EXCEPT ![t] = "fail"]
  /\ UNCHANGED <<job, tmp, table, count, nobj, held, done, spec, file>>
Fail(t) ==
  /\ pc[t] = "fail" /\ Release(t) /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ UNCHANGED <<job, tmp, table, count, live, nobj, held, done, spec, file>>
Insert(t) ==
  /\ pc[t] = "insert"
  /\ table' = Put(table, job[t][2], tmp[t]) /\ count' = Put(count, tmp[t], 1) /\ Release(t)
  /\ held' = [held EXCEPT ![t] = Append(@, <<job[t][2], tmp[t]>>)]
  /\ spec' = (IF job[t][2] \in DOMAIN spec THEN [spec EXCEPT ![job[t][2]].n = @ + 1] ELSE Put(spec, job[t][2], [obj |-> tmp[t], n |-> 1]))
  /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ UNCHANGED <<job, tmp, live, nobj, done, file>>
Dec1(t) ==
  /\ pc[t] = "body" /\ job[t][1] = "free"
  /\ LET o == job[t][2][2] IN
     /\ o \in DOMAIN count
     /\ count' = [count EXCEPT ![o] = @ - 1]
     /\ tmp' = [tmp EXCEPT ![t] = o]
     /\ pc' = [pc EXCEPT ![t] = IF count[o] = 1 THEN "erase" ELSE "out"]
  /\ UNCHANGED <<job, owner, depth, table, live, nobj, held, done, spec, file>>
Erase(t) ==
  /\ pc[t] = "erase"
  /\ live' = live \ {tmp[t]} /\ count' = Drop(count, tmp[t])
  /\ table' = [p \in {q \in DOMAIN table : table[q] # tmp[t]} |-> table[p]]
  /\ pc' = [pc EXCEPT ![t] = "out"]
  /\ UNCHANGED <<job, tmp, owner, depth, nobj, held, done, spec, file>>
Out(t) ==
  /\ pc[t] = "out" /\ Release(t) /\ held' = [held EXCEPT ![t] = Tail(@)]
  /\ LET p == job[t][2][1] IN
     spec' = (IF p \notin DOMAIN spec THEN spec ELSE IF spec[p].n = 1 THEN Drop(spec, p) ELSE [spec EXCEPT ![p].n = @ - 1])
  /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ UNCHANGED <<job, tmp, table, count, live, nobj, done, file>>
Step(t) == Start(t) \/ Acquire(t, "lock", "body") \/ Find(t) \/ Bump(t) \/ Load(t) \/ Acquire(t, "undo", "undobody") \/ UndoFree(t)
           \/ Fail(t) \/ Insert(t) \/ Dec1(t) \/ Erase(t) \/ Out(t)
Next == Change \/ \E t \in Threads : Step(t)

Free == owner = 0
\* what the code keeps is what the sequential cache holds whenever nobody is inside
Refines == Lock /\ Free => /\ DOMAIN table = DOMAIN spec
                           /\ \A p \in DOMAIN spec : table[p] = spec[p].obj /\ count[table[p]] = spec[p].n
                           /\ live = {table[p] : p \in DOMAIN table}
HolderLives == \A t \in Threads : \A k \in DOMAIN held[t] : pc[t] \notin {"out"} => held[t][k][2] \in live
SameCopy == \A t, u \in Threads : \A j \in DOMAIN held[t], k \in DOMAIN held[u] :
              pc[t] # "out" /\ pc[u] # "out" /\ held[t][j][1] = held[u][k][1] => held[t][j][2] = held[u][k][2]
NoLeak == (\A t \in Threads : pc[t] = "idle" /\ held[t] = <<>>) => live = {} /\ table = Fun0 /\ count = Fun0
\* nobody waits for ever: some thread can go on unless all are finished
Live_ == (\A t \in Threads : pc[t] = "idle") \/ \E t \in Threads : pc[t] # "idle" /\ (pc[t] \in {"lock", "undo"} => (~Lock \/ owner = 0 \/ (Recursive /\ owner = t)))
=============================================================================
