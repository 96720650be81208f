----------------------------- MODULE CrashTrace -----------------------------
(* Histories with crashes. Every event may carry, in e.cr, what recovery     *)
(* found after a crash at sampled instants during that operation:            *)
(* <<status, healthy, mismatches, count, records>>; if e.cont = i # 0 the    *)
(* history goes on from the i-th of these crashes.                           *)
(* Modes: "all"   nothing completed is lost, the interrupted step is atomic; *)
(*        "sync"/"loss" exactly the last synchronized state comes back;      *)
(*        "tree"  only records which were stored once, and nothing is lost   *)
(*                if nothing changed since the last synchronization;         *)
(*        "whole" exactly the last saved state, or the one being saved.      *)
EXTENDS KVOps, Json, IOUtils
VARIABLES t, l, db, sset, ever, dirty
vars == <<t, l, db, sset, ever, dirty>>
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
Tr == Traces[t]
Cfg == Tr[1]

Init == /\ t \in 1..Len(Traces)
        /\ l = 2
        /\ db = Empty(Traces[t][1].K)
        /\ sset = {Empty(Traces[t][1].K)}
        /\ ever = {}
        /\ dirty = FALSE

Recs(d) == { <<k, d[k]>> : k \in Present(d) }
ToDB(list) == [k \in DOMAIN db |-> LET S == { i \in DOMAIN list : list[i][1] = k }
                                   IN IF S = {} THEN Absent ELSE list[CHOOSE i \in S : TRUE][2]]
(* a well-formed recovery: open, healthy, unique keys, right count, lookups agree *)
Sane(c) == /\ c[1] = "ok" /\ c[2] = 1 /\ c[3] = 0
           /\ c[4] = Len(c[5])
           /\ \A i \in 1..Len(c[5]) : c[5][i][1] \in DOMAIN db
           /\ \A i, j \in 1..Len(c[5]) : i < j => c[5][i][1] < c[5][j][1]

Prefixes(d, lg) == { Replay(d, SubSeq(lg, 1, i), 1) : i \in 0..Len(lg) }
PerKey(d, d2, x) == \A k \in DOMAIN d : x[k] = d[k] \/ x[k] = d2[k]

(* an interrupted record operation with next state a.db and change list a.log *)
OpCrashOK(e, a, x) ==
  CASE Cfg.mode = "all" -> IF e.o = "proceach" THEN PerKey(db, a.db, x) ELSE x \in Prefixes(db, a.log)
    [] Cfg.mode \in {"sync", "loss", "whole"} -> x \in sset
    [] Cfg.mode = "tree" -> IF ~dirty /\ a.db = db /\ a.log = << >> THEN x = db
                            ELSE Recs(x) \subseteq ever \cup Recs(a.db) \cup { <<a.log[i][1], a.log[i][2]>> : i \in DOMAIN a.log }
MaintCrashOK(e, x) ==
  CASE Cfg.mode = "all" -> x = db
    [] Cfg.mode \in {"sync", "loss", "whole"} -> x = db \/ x \in sset
    [] Cfg.mode = "tree" -> IF ~dirty THEN x = db ELSE Recs(x) \subseteq ever

(* A crash in the middle of the automatic restoration of a tree database is   *)
(* a known finding: only the traces marked as strict look at it.              *)
Excused(e) == Cfg.mode = "tree" /\ Cfg.strict = 0 /\ e.o = "open" /\ Tr[l - 1].cont # 0

After(e, d2, s2, ev2, dirty2) ==
  IF e.cont = 0 THEN db' = d2 /\ sset' = s2 /\ ever' = ev2 /\ dirty' = dirty2
  ELSE LET x == ToDB(e.cr[e.cont][5]) IN
       db' = x /\ sset' = {x} /\ ever' = Recs(x) /\ dirty' = FALSE

Step ==
  /\ l <= Len(Tr)
  /\ LET e == Tr[l] IN
     IF e.o \in KVNames
     THEN LET a == Apply(db, e, Cfg) IN
          /\ ResultOK(a, e)
          /\ TRUE = (\A i \in 1..Len(e.cr) : Sane(e.cr[i]) /\ OpCrashOK(e, a, ToDB(e.cr[i][5])))
          /\ After(e, a.db, sset,
                   IF Cfg.mode = "tree" THEN ever \cup Recs(a.db) \cup { <<a.log[i][1], a.log[i][2]>> : i \in DOMAIN a.log } ELSE {},
                   dirty \/ a.log # << >> \/ a.db # db)
     ELSE /\ e.o \in {"sync", "hsync", "close", "open", "rebuild", "save"} => e.r = <<"ok">>
          /\ TRUE = (Excused(e) \/ \A i \in 1..Len(e.cr) : Sane(e.cr[i]) /\ MaintCrashOK(e, ToDB(e.cr[i][5])))
          /\ CASE e.o \in {"sync", "hsync", "close", "save"} ->
                    After(e, db, IF Cfg.mode = "loss" /\ e.o # "hsync" THEN sset \cup {db} ELSE {db}, ever, FALSE)
               [] e.o = "rebuild" -> After(e, db, sset \cup {db}, ever, dirty)
               [] e.o = "open" -> After(e, db, sset, ever, dirty)
               [] e.o = "faultsave" -> e.r[1] # "ok" /\ After(e, db, sset, ever, dirty)
  /\ l' = l + 1
  /\ UNCHANGED t
Done == l > Len(Tr) /\ UNCHANGED vars
Next == Step \/ Done
=============================================================================
