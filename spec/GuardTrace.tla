----------------------------- MODULE GuardTrace -----------------------------
(* Misuse and read-only access.  One object, one database file and another   *)
(* process.  The object is                                                   *)
(*   closed, rw (open for updating), ro (read-only),                         *)
(*   sickrw / sickro (opened without repairing an unhealthy file);           *)
(* the file is missing, good, unhealthy ("sick") or not a database ("bad")   *)
(* with the committed records com; the other process holds the file for      *)
(* reading or updating, or not.  A call that the state does not allow must   *)
(* fail and change neither the records nor a byte of the files (ch = 0).     *)
(* Databases on memory (base = "mem") keep updates of a read-only object in  *)
(* memory: the object changes, the file must not.                            *)
EXTENDS KVOps, Json, IOUtils
VARIABLES t, l, st, fs, held, com, db
vars == <<t, l, st, fs, held, com, db>>
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
Tr == Traces[t]
Cfg == Tr[1]
Mem == Cfg.base = "mem"

Init == /\ t \in 1..Len(Traces)
        /\ l = 2
        /\ st = "closed" /\ fs = "none" /\ held = "no"
        /\ com = Empty(Traces[t][1].K) /\ db = Empty(Traces[t][1].K)

Good(e) == e.r[1] = "ok"
IsOpen == st # "closed"
CanWrite == st = "rw"
Locked(w) == held = "rw" \/ (held = "ro" /\ w = 1)

OpenLegal(e) ==
  /\ st = "closed" /\ e.args = 1 /\ ~Locked(e.w)
  /\ IF e.w = 1 THEN (fs # "none" \/ e.nocreate = 0) /\ (fs = "bad" => e.trunc = 1)
     ELSE fs \in {"good", "sick"}
Open(e) ==
  IF ~OpenLegal(e) THEN ~Good(e) /\ e.ch = 0 /\ UNCHANGED <<st, fs, held, com, db>>
  ELSE /\ Good(e)
       /\ UNCHANGED held
       /\ IF e.w = 0
          THEN /\ st' = IF fs = "sick" THEN "sickro" ELSE "ro"
               /\ db' = com
               /\ e.ch = 0
               /\ UNCHANGED <<fs, com>>
          ELSE LET fresh == fs = "none" \/ e.trunc = 1
                   sick  == fs = "sick" /\ e.trunc = 0 /\ e.rm = "read_only"
               IN /\ st' = IF sick THEN "sickrw" ELSE "rw"
                  /\ fs' = IF sick THEN "sick" ELSE "good"
                  /\ com' = IF fresh THEN Empty(Cfg.K) ELSE com
                  /\ db' = com'
                  /\ TRUE = (fresh => e.tg = e.tw)     \* the tuning of this call, not of an earlier one

Close(e) ==
  IF ~IsOpen THEN ~Good(e) /\ e.ch = 0 /\ UNCHANGED <<st, fs, held, com, db>>
  ELSE /\ Good(e)
       /\ TRUE = (st # "rw" => e.ch = 0)
       /\ st' = "closed"
       /\ com' = IF st = "rw" THEN db ELSE com
       /\ UNCHANGED <<fs, held, db>>

Attr(e) ==
  /\ e.ch = 0
  /\ e.r[1] = (IF IsOpen THEN 1 ELSE 0)
  /\ e.r[2] = (IF st \in {"rw", "sickrw"} THEN 1 ELSE 0)
  /\ e.r[3] = (IF st \in {"rw", "ro"} \/ (Mem /\ Cfg.direct = 1) THEN 1 ELSE 0)
  /\ TRUE = (\A i \in 4..6 : (e.r[i] = "ok") = IsOpen)
  /\ UNCHANGED <<st, fs, held, com, db>>

(* Maintenance that updates is allowed on a healthy object open for updating. *)
Maint(e) ==
  /\ TRUE = (st # "rw" => e.ch = 0)
  /\ UNCHANGED <<st, fs, held, com>>
  /\ CASE e.m \in {"copy", "sbr"} -> TRUE = (IF IsOpen THEN st \in {"rw", "ro"} => Good(e) ELSE ~Good(e)) /\ UNCHANGED db
       [] e.m = "clear" -> IF CanWrite \/ (Mem /\ IsOpen) THEN Good(e) /\ db' = Empty(Cfg.K) ELSE ~Good(e) /\ UNCHANGED db
       [] OTHER -> TRUE = (IF CanWrite THEN Good(e) ELSE IF Mem /\ IsOpen THEN TRUE ELSE ~Good(e)) /\ UNCHANGED db

Iter(e) ==
  /\ TRUE = (st # "rw" => e.ch = 0)
  /\ TRUE = (~IsOpen => ~Good(e))
  /\ TRUE = (e.m \in {"set", "rem", "procw"} => ~Good(e))
  \* iterators of sharded databases hold the records as they were when the iterator moved
  /\ TRUE = (e.k # 0 => (IsOpen /\ e.k \in 1..Cfg.K /\ e.v # Absent /\ (Cfg.sh = 1 \/ db[e.k] = e.v)))
  /\ UNCHANGED <<st, fs, held, com, db>>

Hold(e) ==
  LET legal == held = "no" /\ (IF e.w = 1 THEN st = "closed" ELSE st \in {"closed", "ro", "sickro"})
  IN IF legal THEN Good(e) /\ held' = (IF e.w = 1 THEN "rw" ELSE "ro") /\ UNCHANGED <<st, fs, com, db>>
     ELSE ~Good(e) /\ e.ch = 0 /\ UNCHANGED <<st, fs, held, com, db>>
Release(e) ==
  /\ Good(e) /\ e.ch = 0
  /\ held' = "no"
  /\ fs' = IF e.dirty = 1 THEN "sick" ELSE fs
  /\ UNCHANGED <<st, com, db>>

Peek(e) ==
  /\ Good(e) /\ e.ch = 0
  /\ e.r[2][1] = "ok"
  /\ TRUE = VisitOK(com, e.r[2][2], Cfg.so = 1)
  /\ e.r[3] = (IF fs = "sick" THEN 0 ELSE 1)
  /\ UNCHANGED <<st, fs, held, com, db>>

Reads(e) ==
  \/ e.o \in {"get", "getsz", "getm", "count", "scan"}
  \/ e.o \in {"proc", "procm", "procfirst", "proceach"} /\ e.w = 0
  \/ e.o = "incr" /\ e.c = 1
Trivial(e) ==   \* may be seen as reading or as changing nothing
  \/ e.o = "cmpx" /\ e.d = AnyVal
  \/ e.o \in {"setm", "appm"} /\ e.kvs = << >>
  \/ e.o = "cxm" /\ e.ds = << >>
Kv(e) ==
  /\ TRUE = (st # "rw" => e.ch = 0)
  /\ UNCHANGED <<st, fs, held, com>>
  /\ IF IsOpen /\ (CanWrite \/ Reads(e) \/ (Mem /\ st = "ro"))
     THEN LET a == Apply(db, e, Cfg) IN TRUE = ResultOK(a, e) /\ db' = a.db
     ELSE TRUE = (Good(e) => Trivial(e) \/ (e.o = "count" /\ e.r[2] = -1)) /\ UNCHANGED db
Put(e) ==
  /\ Good(e)
  /\ db' = SetM(db, e.kvs, 1, TRUE, "ok", << >>).db
  /\ UNCHANGED <<st, fs, held, com>>

Step == /\ l <= Len(Tr)
        /\ LET e == Tr[l] IN
             CASE e.o = "open" -> Open(e)
               [] e.o = "close" -> Close(e)
               [] e.o = "at" -> Attr(e)
               [] e.o = "maint" -> Maint(e)
               [] e.o = "iter" -> Iter(e)
               [] e.o = "hold" -> Hold(e)
               [] e.o = "release" -> Release(e)
               [] e.o = "peek" -> Peek(e)
               [] e.o = "put" -> Put(e)
               [] e.o = "junk" -> fs' = "bad" /\ com' = Empty(Cfg.K) /\ UNCHANGED <<st, held, db>>
               [] e.o = "wipe" -> fs' = "none" /\ com' = Empty(Cfg.K) /\ UNCHANGED <<st, held, db>>
               [] e.o \in KVNames -> Kv(e)
               [] OTHER -> FALSE
        /\ l' = l + 1
        /\ UNCHANGED t
Done == l > Len(Tr) /\ UNCHANGED vars
Next == Step \/ Done
=============================================================================
