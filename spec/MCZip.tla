------------------------------- MODULE MCZip -------------------------------
(***************************************************************************)
(* All short histories of one archive: members added in chunks, then read  *)
(* in any order, repeatedly and in pieces.  What System allows is checked  *)
(* against the history itself; every history is printed as a program.      *)
(***************************************************************************)
EXTENDS System, Json, IOUtils
Profile == IOEnv.PROFILE
Depth == atoi(IOEnv.DEPTH)
DecImpl(x) == 0
Same(x) == x
VARIABLES st, hist
vars == <<st, hist>>
P_ == "a.zip"
ZNames == IF Profile = "write" THEN {"x", "y"} ELSE {"x", "z", "y"}
Chunks == IF Profile = "write" THEN {"", "00", "504b0506"} ELSE {"", "414243"}
W == "w"  R == "r"  S_ == "s"
Writer == W \in DOMAIN st.zw
Open == Writer /\ st.zw[W].open
Reader == R \in DOMAIN st.zr
Stream == S_ \in DOMAIN st.zs

OpenW == [op |-> "zopenw", path |-> P_, w |-> W, r |-> [ok |-> TRUE]]
Read(k) == LET s == st.zs[S_]  left == Bytes(s.c) - s.pos  n == IF k < 0 \/ k > left THEN left ELSE k
           IN [op |-> "zread", sm |-> S_, k |-> k, how |-> IF k = 1 THEN "g" ELSE "r",
               r |-> [c |-> SubSeq(s.c, 2 * s.pos + 1, 2 * (s.pos + n)), eof |-> (k < 0 \/ k > left)]]
RECURSIVE Seq_(_)
Seq_(Q) == IF Q = {} THEN <<>> ELSE LET q == CHOOSE q \in Q : TRUE IN <<q>> \o Seq_(Q \ {q})
Alphabet ==
  IF Writer
  THEN IF Open THEN {[op |-> "zput", w |-> W, c |-> c, how |-> h, r |-> TRUE] : c \in Chunks, h \in (IF Profile = "write" THEN {"w", "f"} ELSE {"p"})}
                    \cup {[op |-> "zend", w |-> W, r |-> 0]}
       ELSE {[op |-> "zadd", w |-> W, n |-> n, r |-> 0] : n \in ZNames \ Members(st.zw[W].m)} \cup {[op |-> "zclosew", w |-> W, r |-> 0]}
  ELSE IF ~Reader THEN {[op |-> "zopenr", path |-> P_, rd |-> R, r |-> [ok |-> TRUE]]} \cup (IF Profile = "write" THEN {} ELSE {OpenW})
  ELSE IF Stream THEN {Read(1), Read(-1), Read(4)} \cup {[op |-> "zdone", sm |-> S_, r |-> 0]}
  ELSE {[op |-> "zget", rd |-> R, n |-> n, sm |-> S_, r |-> [ok |-> n \in Members(st.zr[R].m)]] : n \in ZNames}
       \cup {[op |-> "zlist", rd |-> R, r |-> Seq_(Members(st.zr[R].m))], [op |-> "zcloser", rd |-> R, r |-> 0]}
\* the profile "read" starts with an archive of two members
RECURSIVE Run(_, _)
Run(s, es) == IF es = <<>> THEN s ELSE Run(SysNext(s, Head(es)), Tail(es))
Made == <<[op |-> "zadd", w |-> W, n |-> "x", r |-> 0], [op |-> "zput", w |-> W, c |-> "414243", how |-> "w", r |-> TRUE],
          [op |-> "zput", w |-> W, c |-> "444546", how |-> "f", r |-> TRUE], [op |-> "zend", w |-> W, r |-> 0],
          [op |-> "zadd", w |-> W, n |-> "z", r |-> 0], [op |-> "zend", w |-> W, r |-> 0], [op |-> "zclosew", w |-> W, r |-> 0],
          [op |-> "zopenr", path |-> P_, rd |-> R, r |-> [ok |-> TRUE]]>>
Start == IF Profile = "write" THEN <<>> ELSE Made
Init == hist = Start /\ st = Run(SysNext(SysInit, OpenW), Start)
\* what closes everything down, so that every printed program ends with the archive being looked at
Do(e) ==
  /\ SysPre(st, e)
  /\ st' = SysNext(st, e)
  /\ hist' = Append(hist, e)
  /\ PrintT(<<"PROG", ToJson(<<OpenW>> \o hist')>>)
Next == Len(hist) < Len(Start) + Depth /\ \E e \in Alphabet : Do(e)
Enabled_ == \A e \in Alphabet : SysPre(st, e) /\ SysOk(st, e)

(* ---- the guarantees, over the history alone ------------------------------*)
\* index of the last event with this op before i, 0 if none
LastOf(op, i) == LET Q == {j \in 1..i-1 : hist[j].op = op} IN IF Q = {} THEN 0 ELSE CHOOSE j \in Q : \A k \in Q : k <= j
RECURSIVE Cat(_, _, _)
Cat(a, b, op) == IF a > b THEN "" ELSE (IF hist[a].op = op THEN (IF op = "zput" THEN hist[a].c ELSE hist[a].r.c) ELSE "") \o Cat(a + 1, b, op)
\* the archive a reader opened at event o reads: the adds between the opening of the last writer closed before o and its close
Adds(o) == LET cl == LastOf("zclosew", o)  op == LastOf("zopenw", cl) IN {j \in op+1..cl-1 : hist[j].op = "zadd"}
EndOf(j) == CHOOSE k \in DOMAIN hist : k > j /\ hist[k].op = "zend" /\ \A m \in j..k-1 : hist[m].op # "zend"
\* reading piece by piece never yields anything but a prefix of what was put, and all of it once the end is met
Reads_ == \A i \in DOMAIN hist : hist[i].op = "zread" =>
  LET g == LastOf("zget", i)  o == LastOf("zopenr", g)
      a == {j \in Adds(o) : hist[j].n = hist[g].n}
      got == Cat(g + 1, i, "zread")
  IN \E j \in a : LET all == Cat(j, EndOf(j), "zput") IN
       /\ Len(got) <= Len(all) /\ got = SubSeq(all, 1, Len(got)) /\ (hist[i].r.eof => got = all)
Lists_ == \A i \in DOMAIN hist :
  /\ hist[i].op = "zlist" => Range(hist[i].r) = {hist[j].n : j \in Adds(LastOf("zopenr", i))}
  /\ hist[i].op = "zget" => hist[i].r.ok = (\E j \in Adds(LastOf("zopenr", i)) : hist[j].n = hist[i].n)
=============================================================================
