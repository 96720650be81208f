------------------------------ MODULE CopyTrace ------------------------------
(* Two databases over one key table and up to three interchange files.       *)
(* Besides the record operations (field x: the database) a history exports,  *)
(* imports and copies.  A file is a list of items: <<k, v>> a record,        *)
(* <<0, v>> a metadata record or a line which holds no record, and           *)
(* <<-1, v>> a key without a value.  An export replaces the file by all the  *)
(* records in the visiting order of the database; what the bytes of the file *)
(* hold is read by an independent parser (e.r[2]).  An import stores the     *)
(* items one after another.  A copy of the database file, opened as a        *)
(* database of its own, holds exactly the records of the original.           *)
EXTENDS KVOps, Json, IOUtils
VARIABLES t, l, dbs, files
vars == <<t, l, dbs, files>>
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
Tr == Traces[t]
Cfg(x) == Tr[1].cfgs[x]

Init == /\ t \in 1..Len(Traces)
        /\ l = 2
        /\ dbs = [i \in 1..2 |-> Empty(Traces[t][1].K)]
        /\ files = [i \in 1..3 |-> << >>]

(* Trimming of control characters in plain TSV: one token is one byte. *)
Trim(v) == [i \in DOMAIN v |-> IF (v[i] <= 32 \/ v[i] = 127) /\ v[i] # 9 THEN 32 ELSE v[i]]
TrimDB(db) == [k \in DOMAIN db |-> IF db[k] = Absent THEN Absent ELSE Trim(db[k])]

Merge(src, dst) == [k \in DOMAIN dst |-> IF src[k] = Absent THEN dst[k] ELSE src[k]]
RECURSIVE Import(_, _, _)
Import(db, s, i) ==          \* result: [db, r]
  IF i > Len(s) THEN [db |-> db, r |-> <<"ok">>]
  ELSE IF s[i][1] = 0 THEN Import(db, s, i + 1)
  ELSE IF s[i][1] < 1 \/ s[i][1] > Len(db) THEN [db |-> db, r |-> <<"brk">>]
  ELSE Import([db EXCEPT ![s[i][1]] = s[i][2]], s, i + 1)
KeysOK(db, ks, ordered) ==
  /\ Len(ks) = Cardinality(Present(db))
  /\ Range(ks) = Present(db)
  /\ (ordered => \A i \in 1..(Len(ks) - 1) : ks[i] < ks[i + 1])

Keep == UNCHANGED <<dbs, files>>
Step ==
  /\ l <= Len(Tr)
  /\ LET e == Tr[l] IN
     CASE e.o = "exp" ->
            /\ e.r = <<"ok">>
            /\ dbs' = [dbs EXCEPT ![e.y] = Merge(dbs[e.x], @)]
            /\ UNCHANGED files
       [] e.o \in {"toflat", "totsv"} ->
            /\ e.r[1] = "ok"
            /\ (TRUE = VisitOK(IF e.o = "totsv" /\ e.esc = 0 THEN TrimDB(dbs[e.x]) ELSE dbs[e.x], e.r[2], Cfg(e.x).eo = 1))
            /\ files' = [files EXCEPT ![e.f] = e.r[2]]
            /\ UNCHANGED dbs
       [] e.o = "tokeys" ->
            /\ e.r[1] = "ok"
            /\ (TRUE = KeysOK(dbs[e.x], e.r[2], Cfg(e.x).eo = 1))
            /\ Keep
       [] e.o = "add" ->       \* items appended to the file by another program
            /\ files' = [files EXCEPT ![e.f] = @ \o e.items]
            /\ UNCHANGED dbs
       [] e.o = "rdflat" -> e.r = <<"ok", files[e.f]>> /\ Keep
       [] e.o = "imp" ->
            LET a == Import(dbs[e.x], files[e.f], 1) IN
            /\ e.r = a.r
            /\ dbs' = [dbs EXCEPT ![e.x] = a.db]
            /\ UNCHANGED files
       [] e.o = "copy" ->      \* status of the copy, of its opening, health, count, records
            /\ (TRUE = (/\ e.r[1] = "ok" /\ e.r[2] = "ok" /\ e.r[3] = 1
                        /\ e.r[4] = Cardinality(Present(dbs[e.x]))
                        /\ VisitOK(dbs[e.x], e.r[5], Cfg(e.x).so = 1)))
            /\ Keep
       [] e.o = "replace" ->   \* the file of the database y replaced by a copy of x
            /\ e.r = <<"ok">>
            /\ dbs' = [dbs EXCEPT ![e.y] = dbs[e.x]]
            /\ UNCHANGED files
       [] e.o \in {"sync", "rebuild", "reopen"} -> e.r = <<"ok">> /\ Keep
       [] e.o \in KVNames ->
            LET a == Apply(dbs[e.x], e, Cfg(e.x)) IN
            /\ (TRUE = ResultOK(a, e))
            /\ dbs' = [dbs EXCEPT ![e.x] = a.db]
            /\ UNCHANGED files
       [] OTHER -> FALSE
  /\ l' = l + 1
  /\ UNCHANGED t
Done == l > Len(Tr) /\ UNCHANGED vars
Next == Step \/ Done
=============================================================================
