------------------------------- MODULE KVTrace -------------------------------
(* Checks recorded sequential histories of a database object against KVOps. *)
(* Besides the record operations a history contains maintenance steps, all  *)
(* of which must leave the records alone:                                   *)
(*   sync, rebuild, reopen, inspect, sbr, copy.                             *)
EXTENDS KVOps, Json, IOUtils
VARIABLES t, l, db
vars == <<t, l, db>>
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
Tr == Traces[t]
Cfg == Tr[1]

Init == /\ t \in 1..Len(Traces)
        /\ l = 2
        /\ db = Empty(Traces[t][1].K)

Maint(e) ==
  CASE e.o \in {"sync", "rebuild", "reopen", "copy"} -> e.r = <<"ok">>
    [] e.o = "inspect" -> e.r = <<"ok", 1, 1, Cardinality(Present(db))>>   \* healthy, open, num_records
    [] e.o = "sbr" -> e.r[1] = "ok"
    [] OTHER -> FALSE

Step == /\ l <= Len(Tr)
        /\ LET e == Tr[l] IN
             IF e.o \in KVNames
             THEN LET a == Apply(db, e, Cfg) IN ResultOK(a, e) /\ db' = a.db
             ELSE Maint(e) /\ UNCHANGED db
        /\ l' = l + 1
        /\ UNCHANGED t
Done == l > Len(Tr) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
