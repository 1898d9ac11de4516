------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Conformance of recorded executions with the specification.                         *)
(* The file named by the environment variable TRACE holds one JSON event   *)
(* per line; the first holds tables of float bit patterns (see Store).     *)
(* Programs start with a reset event.  A program in which an observation   *)
(* is not allowed is reported (BAD line) and skipped; an event outside the *)
(* contract of the API is an error of the program generator (PRE line).    *)
(***************************************************************************)
EXTENDS Tools, Json, IOUtils

Tr == ndJsonDeserialize(IOEnv.TRACE)
DecImpl(x) == Tr[1].dec[x]
G6Impl(x) == Tr[1].g6[x]
I2FImpl(x) == Tr[1].i2f[ToString(x)]
NrmImpl(x) == Tr[1].nrm[x]
D255Impl(x) == Tr[1].d255[x]
Resets == {i \in DOMAIN Tr : i > 1 /\ Tr[i].op = "reset"}
NextReset(i) == IF i \in DOMAIN Tr /\ (\E j \in i+1..Len(Tr) : j \in Resets)
                THEN CHOOSE j \in Resets : j > i /\ \A k \in Resets : k > i => j <= k
                ELSE Len(Tr) + 1

VARIABLES l, st
vars == <<l, st>>
Init == l = 2 /\ st = BindInit
Skip(why) == PrintT(<<why, l>>) /\ l' = NextReset(l) /\ st' = BindInit
Next ==
  /\ l <= Len(Tr)
  /\ IF "need" \in DOMAIN Tr[l] \/ ~ToolPre(st, Tr[l]) THEN Skip("PRE")
     ELSE IF "bad" \in DOMAIN Tr[l] \/ ~ToolOk(st, Tr[l]) THEN Skip("BAD")
     ELSE l' = l + 1 /\ st' = ToolNext(st, Tr[l])
Done == PrintT(<<"DONE", TLCGet("stats").diameter, TLCGet("stats").generated>>)
=============================================================================
