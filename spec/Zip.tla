-------------------------------- MODULE Zip --------------------------------
(***************************************************************************)
(* Zip archives: the writer, the reader and the streams they give.         *)
(*   st.fs[p]  a file with fmt "ZIP" has m, its members <<name, content>>  *)
(*             in order; content is a string of hexadecimal digits, or "?" *)
(*             for a damaged member, of which nothing is known             *)
(*   st.zw     writer -> [p, m, open]: open tells that the last member is  *)
(*             still being written; nothing is known of the file until the *)
(*             writer is closed                                            *)
(*   st.zr     reader -> [m, known]                                        *)
(*   st.zs     stream -> [rd, c, pos] (bytes of c already read)            *)
(* A reader serves one stream at a time.                                   *)
(***************************************************************************)
EXTENDS Files
ZipInit == [zw |-> Nil, zr |-> Nil, zs |-> Nil]
ZipOps == {"zopenw", "zadd", "zput", "zend", "zclosew", "zopenr", "zlist", "zget", "zread", "zdone", "zcloser", "zstd", "zgiven"}

Members(m) == {m[i][1] : i \in DOMAIN m}
MemberIdx(m, n) == CHOOSE i \in DOMAIN m : m[i][1] = n
Bytes(c) == Len(c) \div 2
IsZip(st, p) == Exists(st, p) /\ FileAt(st, p).k = "data" /\ FileAt(st, p).fmt = "ZIP"
Writing(st, p) == \E w \in DOMAIN st.zw : Norm(st.zw[w].p) = Norm(p)
Reading(st, p) == \E r \in DOMAIN st.zr : Norm(st.zr[r].p) = Norm(p)
Served(st, rd) == \E s \in DOMAIN st.zs : st.zs[s].rd = rd

ZipPre(st, e) ==
  CASE e.op = "zopenw" -> e.w \notin DOMAIN st.zw /\ ~Writing(st, e.path) /\ ~Reading(st, e.path)
    [] e.op = "zadd" -> e.w \in DOMAIN st.zw /\ ~st.zw[e.w].open /\ e.n \notin Members(st.zw[e.w].m)
    [] e.op \in {"zput", "zend"} -> e.w \in DOMAIN st.zw /\ st.zw[e.w].open
    [] e.op = "zclosew" -> e.w \in DOMAIN st.zw /\ ~st.zw[e.w].open
    [] e.op = "zopenr" -> e.rd \notin DOMAIN st.zr /\ ~Writing(st, e.path)
    [] e.op = "zlist" -> e.rd \in DOMAIN st.zr
    [] e.op = "zget" -> e.rd \in DOMAIN st.zr /\ ~Served(st, e.rd) /\ e.sm \notin DOMAIN st.zs
    [] e.op \in {"zread", "zdone"} -> e.sm \in DOMAIN st.zs
    [] e.op = "zcloser" -> e.rd \in DOMAIN st.zr /\ ~Served(st, e.rd)
    [] e.op = "zgiven" -> ~Writing(st, e.path) /\ ~Reading(st, e.path)
    [] e.op = "zstd" -> IsZip(st, e.path)
ZipOpens(st, p) == Reachable(p) /\ Exists(st, p) /\ FileAt(st, p).k # "dir"
ZipOk(st, e) ==
  CASE e.op = "zopenw" -> e.r.ok = (Reachable(e.path) /\ ~(Exists(st, e.path) /\ FileAt(st, e.path).k = "dir"))
    [] e.op = "zopenr" -> ~(Exists(st, e.path) /\ FileAt(st, e.path).k = "dir") => e.r.ok = ZipOpens(st, e.path)
    [] e.op = "zput" -> e.r
    [] e.op = "zlist" -> LET z == st.zr[e.rd] IN
         z.known => Len(e.r) = Len(z.m) /\ Range(e.r) = Members(z.m)
    [] e.op = "zget" -> LET z == st.zr[e.rd] IN z.known => e.r.ok = (e.n \in Members(z.m))
    [] e.op = "zread" ->
         LET s == st.zs[e.sm]  left == Bytes(s.c) - s.pos
             k == IF e.k < 0 \/ e.k > left THEN left ELSE e.k
         IN s.known => /\ e.r.c = SubSeq(s.c, 2 * s.pos + 1, 2 * (s.pos + k))
                       /\ (e.k > left => e.r.eof)
    [] e.op = "zstd" -> e.r.ok /\ e.r.m = FileAt(st, e.path).m
    [] OTHER -> TRUE
ZipFile(m) == [k |-> "data", fmt |-> "ZIP", gz |-> FALSE, dig |-> "%", asis |-> TRUE, m |-> m]
ZipNext(st, e) ==
  CASE e.op = "zopenw" -> IF ~e.r.ok THEN st
         ELSE [st EXCEPT !.zw = Put(@, e.w, [p |-> e.path, m |-> <<>>, open |-> FALSE]),
                         !.fs = Put(@, Norm(e.path), [k |-> "any", fmt |-> "ANY", gz |-> FALSE])]
    [] e.op = "zadd" -> [st EXCEPT !.zw[e.w].m = Append(@, <<e.n, "">>), !.zw[e.w].open = TRUE]
    [] e.op = "zput" -> LET m == st.zw[e.w].m  i == Len(m) IN [st EXCEPT !.zw[e.w].m[i] = <<@[1], @[2] \o e.c>>]
    [] e.op = "zend" -> [st EXCEPT !.zw[e.w].open = FALSE]
    [] e.op = "zclosew" -> [st EXCEPT !.zw = Drop(@, e.w), !.fs = Put(@, Norm(st.zw[e.w].p), ZipFile(st.zw[e.w].m))]
    [] e.op = "zgiven" -> [st EXCEPT !.fs = Put(@, Norm(e.path), ZipFile(e.m))]
    [] e.op = "zopenr" -> IF ~e.r.ok THEN st
         ELSE LET z == IsZip(st, e.path) IN
              [st EXCEPT !.zr = Put(@, e.rd, [p |-> e.path, m |-> IF z THEN FileAt(st, e.path).m ELSE <<>>, known |-> z])]
    [] e.op = "zget" -> IF ~e.r.ok THEN st
         ELSE LET z == st.zr[e.rd] IN
              [st EXCEPT !.zs = Put(@, e.sm, [rd |-> e.rd, c |-> IF z.known THEN z.m[MemberIdx(z.m, e.n)][2] ELSE "", pos |-> 0,
                                             known |-> z.known /\ z.m[MemberIdx(z.m, e.n)][2] # "?"])]
    [] e.op = "zread" -> [st EXCEPT !.zs[e.sm].pos = @ + Bytes(e.r.c)]
    [] e.op = "zdone" -> [st EXCEPT !.zs = Drop(@, e.sm)]
    [] e.op = "zcloser" -> [st EXCEPT !.zr = Drop(@, e.rd)]
    [] OTHER -> st
=============================================================================
