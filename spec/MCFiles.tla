------------------------------ MODULE MCFiles ------------------------------
(***************************************************************************)
(* Every combination of what can be at a few paths, by histories of writes *)
(* (accepted and refused), copies, compression, cuts, foreign files,       *)
(* directories and removals; in each, every way of reading every path.     *)
(* The guarantees of dispatch, failure and compression are stated over the *)
(* history alone and checked against what Files allows; one history per    *)
(* combination is printed, followed by the reads, and run in the library.  *)
(* With MODE = "paths" all histories are.                                  *)
(***************************************************************************)
EXTENDS System, Json, IOUtils
Profile == IOEnv.PROFILE
Depth == atoi(IOEnv.DEPTH)
Mode == IOEnv.MODE
DecImpl(x) == 0
Same(x) == x
I2FImpl(x) == CASE x = 1 -> "3f800000" [] x = 2 -> "40000000" [] OTHER -> "none"
VARIABLES st, hist
vars == <<st, hist>>

Paths ==
  CASE Profile = "one"   -> {"a.bgeo", "b.geo.gz", "plain", "nodir/n.pda"}
    [] Profile = "two"   -> {"a.pdb", "b.pdb64", "c.prt"}
    [] Profile = "three" -> {"a.ptc.gz", "b.pda", "c.unknown.gz"}
    [] Profile = "four"  -> {"a.pdc", "b.bin", "c.pdb.x.gz.bgeo"}
    [] Profile = "five"  -> {"x.bgeo", "./x.bgeo", "x.bgeo.gz"}
    [] Profile = "six"   -> {"m.geo", "m.pts", "m.rib", "m.mc"}
Foreign == IF Profile \in {"one", "two", "five"} THEN TRUE ELSE FALSE     \* copies between names too

AddA(h, k, n, t, c) == [op |-> "addA", h |-> h, k |-> k, n |-> n, t |-> t, c |-> c, r |-> [ok |-> TRUE]]
SetV(h, k, i, v) == [op |-> "set", h |-> h, k |-> k, i |-> i, v |-> v]
Start == << [op |-> "new", h2 |-> "s", kind |-> "simple"], AddA("s", "k1", "position", VECTOR, 3), AddA("s", "k2", "a", INT, 1), AddA("s", "k3", "w", FLOAT, 1),
            [op |-> "addPs", h |-> "s", c |-> 2],
            SetV("s", "k1", 0, <<F0, F1, F0>>), SetV("s", "k1", 1, <<F1, F1, "40000000">>), SetV("s", "k2", 0, <<2>>), SetV("s", "k2", 1, <<1>>),
            SetV("s", "k3", 0, <<F1>>), SetV("s", "k3", 1, <<"c0200000">>),
            [op |-> "new", h2 |-> "u", kind |-> "inter"], AddA("u", "k4", "m", FLOAT, 1), [op |-> "addP", h |-> "u"], SetV("u", "k4", 0, <<F1>>) >>

(* ---- operations, with the results Files says they have -------------------*)
Base(p, f) == LET d == LastDot(p, Len(p)) IN f
WriteE(h, p, force) ==
  LET f == WriterOf(Ext(p))  S == st.sets[h]
      isdir == Exists(st, p) /\ FileAt(st, p).k = "dir"
      gz == (force \/ EndsGz(p)) /\ f # "PRT"
      r == IF f = "NO" THEN [msg |-> TRUE, ex |-> Exists(st, p), gz |-> FALSE, valid |-> FALSE, dig |-> "%"]
           ELSE IF ~Reachable(p) \/ isdir THEN [msg |-> TRUE, ex |-> FALSE, gz |-> FALSE, valid |-> FALSE, dig |-> "%"]
           ELSE IF Refused(f, S) THEN [msg |-> TRUE, ex |-> TRUE, gz |-> FALSE, valid |-> FALSE, dig |-> "%"]
           ELSE [msg |-> FALSE, ex |-> TRUE, gz |-> gz, valid |-> gz, dig |-> f \o h]
  IN [op |-> "write", h |-> h, path |-> p, force |-> force, verbose |-> TRUE, r |-> r]
Obs(fl) ==           \* the content a reading gives, literally
  LET S == fl.S  B == ReadBack(Shape(fl), S)
      val(o, k) == CASE o.m = "k" -> o.v [] o.m = "i" -> <<k>> [] o.m = "n" -> [c \in DOMAIN S.C[o.src][k] |-> I2F(S.C[o.src][k][c])] [] OTHER -> S.C[o.src][k]
      head(a) == [n |-> a.n, t |-> a.t, c |-> a.c, s |-> a.s]
  IN [n |-> S.n, a |-> [i \in DOMAIN B.a |-> head(B.a[i])], f |-> <<>>,
      d |-> [i \in DOMAIN B.a |-> [k \in 1..S.n |-> val(B.a[i], k - 1)]]]
Head_(x) == [n |-> x.n, a |-> [i \in DOMAIN x.a |-> [n |-> x.a[i].n, t |-> x.a[i].t, c |-> x.a[i].c, k |-> TRUE]], f |-> <<>>]
ReadE(op, p, h, v) ==
  LET o == Outcome(st, p)
      r == IF o = "data" THEN [ok |-> TRUE, msg |-> FALSE, same |-> <<>>, x |-> (IF op = "hdr" THEN Head_(Obs(FileAt(st, p))) ELSE Obs(FileAt(st, p)))]
           ELSE [ok |-> FALSE, msg |-> v \/ o = "none", same |-> <<>>]
      e == [op |-> op, path |-> p, h2 |-> h, verbose |-> v, r |-> r]
  IN IF op = "hdr" THEN e ELSE IF op = "read" THEN e @@ [obs |-> "d"] ELSE e @@ [obs |-> "d", sort |-> FALSE]
Kind(p) == IF Exists(st, p) THEN FileAt(st, p).k ELSE "none"
Src(p) == Kind(p) \in {"data", "any", "cut"}
Dst(q) == Reachable(q) /\ Kind(q) # "dir"
Fmt(p) == FileAt(st, p).fmt
Alphabet ==
  {WriteE(h, p, f) : h \in {"s", "u"}, p \in Paths, f \in (IF Profile = "five" THEN BOOLEAN ELSE {FALSE})}
  \cup {[op |-> "put", path |-> p, fmt |-> "JUNK", hex |-> "5175696e6b", r |-> 0] : p \in {q \in Paths : Dst(q)}}
  \cup {[op |-> "mkdir", path |-> p, r |-> 0] : p \in {q \in Paths : Reachable(q) /\ ~Exists(st, q)}}
  \cup {[op |-> "unlink", path |-> p, r |-> 0] : p \in {q \in Paths : Exists(st, q)}}
  \cup {[op |-> "cp", path |-> a, path2 |-> b, r |-> 0] : a \in {q \in Paths : Foreign /\ Src(q)}, b \in {q \in Paths : Dst(q)}}
  \cup {[op |-> "gz", path |-> a, path2 |-> b, level |-> 6, flags |-> 8, r |-> 0] : a \in {q \in Paths : Src(q) /\ Kind(q) = "data" /\ Fmt(q) # "JUNK"}, b \in {q \in Paths : Dst(q)}}
  \cup {[op |-> "cut", path |-> a, path2 |-> a, num |-> 1, den |-> 2, off |-> 1, r |-> [len |-> 20, of |-> 40]] :
          a \in {q \in Paths : Kind(q) = "data" /\ FileAt(st, q).fmt # "JUNK"}}
Sound(e) ==          \* copying a file onto itself, or between the two names of one, is left out
  /\ ("path2" \in DOMAIN e /\ e.op \in {"cp", "gz"} => Norm(e.path) # Norm(e.path2))
RECURSIVE Order(_)
Order(Q) == IF Q = {} THEN <<>> ELSE LET q == CHOOSE q \in Q : TRUE IN <<q>> \o Order(Q \ {q})
PathSeq == Order(Paths)
RECURSIVE ReadsFrom(_, _)
ReadsFrom(s, j) ==
  IF j > Len(PathSeq) THEN <<>>
  ELSE LET p == PathSeq[j]  n == ToString(j) IN
       (IF ReadPre(st, p)
        THEN <<ReadE("read", p, "r" \o n, TRUE), ReadE("hdr", p, "h" \o n, TRUE), ReadE("read", p, "q" \o n, FALSE), ReadE("cached", p, "c" \o n, TRUE)>>
        ELSE <<>>) \o ReadsFrom(s, j + 1)
RECURSIVE Run(_, _)
Run(s, es) == IF es = <<>> THEN s ELSE Run(SysNext(s, Head(es)), Tail(es))
Init == hist = <<>> /\ st = Run(SysInit, Start)
Do(e) ==
  /\ Sound(e)
  /\ SysPre(st, e)
  /\ st' = SysNext(st, e)
  /\ hist' = Append(hist, e)
Next == Len(hist) < Depth /\ \E e \in Alphabet : Do(e)
\* one line per combination reached (with "paths": per history)
Abstract(fl) == IF fl.k = "data" /\ "S" \in DOMAIN fl THEN <<fl.fmt, fl.gz, fl.S.n>> ELSE IF fl.k = "cut" THEN <<fl.fmt, fl.raw, fl.S.n, "cut">> ELSE <<fl.k, fl.gz>>
StateView == IF Mode = "paths" THEN <<hist>> ELSE <<[p \in DOMAIN st.fs |-> Abstract(st.fs[p])]>>
Emit == PrintT(<<"PROG", ToJson(Start \o hist \o ReadsFrom(st, 1))>>)

(* ---- the guarantees ------------------------------------------------------*)
\* nothing the model expects is refused by Files
Allowed == /\ \A e \in Alphabet : Sound(e) /\ SysPre(st, e) => SysOk(st, e)
           /\ \A j \in DOMAIN ReadsFrom(st, 1) : SysOk(st, ReadsFrom(st, 1)[j])
\* what the history left at p, told from the last event that concerned it
Fails(e) == e.op = "write" /\ (e.r.msg /\ ~(e.h = "u" /\ WriterOf(Ext(e.path)) \in {"BGEO", "GEO", "PTC", "RIB"} /\ e.r.ex /\ Reachable(e.path)))
Target(e) == IF e.op \in {"cp", "gz", "cut"} THEN Norm(e.path2) ELSE Norm(e.path)
RECURSIVE At(_, _)
At(q, i) ==          \* <<what, format, compressed, set>> at q after the first i events
  IF i = 0 THEN <<"none">>
  ELSE LET e == hist[i] IN
       IF Target(e) # q \/ Fails(e) THEN At(q, i - 1)
       ELSE CASE e.op = "write" -> IF e.r.msg THEN <<"any">> ELSE <<"data", WriterOf(Ext(e.path)), e.r.gz, e.h>>
              [] e.op = "put" -> <<"junk">>
              [] e.op = "mkdir" -> <<"dir">>
              [] e.op = "unlink" -> <<"none">>
              [] e.op = "cp" -> At(Norm(e.path), i - 1)
              [] e.op = "gz" -> LET a == At(Norm(e.path), i - 1) IN IF a[1] = "data" THEN <<"data", a[2], TRUE, a[4]>> ELSE a
              [] e.op = "cut" -> <<"cut">>
\* only the extension selects the format; a read succeeds exactly when what is there is of that format
Readable == [x \in {"bgeo", "geo", "pdb", "pdb64", "prt", "ptc", "pda", "pdc", "bin"} |->
               CASE x = "pdb" -> {"PDB32", "PDB64"} [] x = "pdb64" -> {"PDB64"} [] x = "bgeo" -> {"BGEO"} [] x = "geo" -> {"GEO"}
                 [] x = "prt" -> {"PRT"} [] x = "ptc" -> {"PTC"} [] x = "pda" -> {"PDA"} [] x = "pdc" -> {"PDC"} [] OTHER -> {"BIN"}]
ExtOf == [p \in Paths |-> CASE p \in {"a.bgeo", "c.pdb.x.gz.bgeo", "x.bgeo", "./x.bgeo", "x.bgeo.gz"} -> "bgeo" [] p \in {"b.geo.gz", "m.geo"} -> "geo"
                            [] p = "a.pdb" -> "pdb" [] p = "b.pdb64" -> "pdb64" [] p = "c.prt" -> "prt" [] p = "a.ptc.gz" -> "ptc" [] p \in {"b.pda", "nodir/n.pda"} -> "pda"
                            [] p = "a.pdc" -> "pdc" [] p = "b.bin" -> "bin" [] OTHER -> "no"]
ReadsRight == \A p \in Paths :
  LET a == At(Norm(p), Len(hist))  x == ExtOf[p]  o == Outcome(st, p) IN
  /\ x = "no" /\ p \in {"plain", "c.unknown.gz", "m.rib"} => o = "none"
  /\ x # "no" /\ a[1] = "none" => o = "fail"
  /\ x # "no" /\ a[1] = "junk" /\ x # "geo" => o = "fail"
  /\ x # "no" /\ a[1] = "data" =>
       (o = "data") = (a[2] \in Readable[x] /\ ~(a[3] /\ a[2] = "PRT"))
  /\ o = "data" => /\ FileAt(st, p).S.n = (IF a[4] = "s" THEN 2 ELSE 1)
                   /\ FileAt(st, p).gz = a[3]
                   /\ Obs(FileAt(st, p)).n = FileAt(st, p).S.n
\* a failed operation changes nothing, another changes only its target
Last == hist'[Len(hist')]
Frame == [][Len(hist') > Len(hist) =>
  IF Fails(Last) THEN st'.fs = st.fs
  ELSE \A q \in (DOMAIN st.fs \cup DOMAIN st'.fs) \ {Target(Last)} : q \in DOMAIN st.fs /\ q \in DOMAIN st'.fs /\ st'.fs[q] = st.fs[q]]_vars
\* compressing changes nothing a reading gives
Transparent == [][Len(hist') > Len(hist) /\ Last.op = "gz" =>
  LET a == st.fs[Norm(Last.path)]  b == st'.fs[Norm(Last.path2)] IN a.fmt = b.fmt /\ (a.fmt # "JUNK" => ReadBack(Shape(a), a.S) = ReadBack(Shape(b), b.S))]_vars
=============================================================================
