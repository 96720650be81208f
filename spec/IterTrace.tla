------------------------------ MODULE IterTrace ------------------------------
(* Iterators over a database that is updated between the iterator's steps.  *)
(* Three iterator disciplines, by database class (Cfg.kind):                *)
(*  "lazy"  ordered; the position is a key, possibly one not stored, and    *)
(*          resolves to the first record at or above it when it is used;    *)
(*  "eager" ordered; the position is a record and moves to the next record  *)
(*          when that record is removed by anyone;                          *)
(*  "hash"  unordered; every record is visited once; a removal of a record  *)
(*          that was not passed yet may invalidate the iterator, which then *)
(*          reports "not found" but never a wrong record.  For Cfg.reh = 1  *)
(*          an insertion may invalidate it too.                             *)
EXTENDS KVOps, Json, IOUtils
VARIABLES t, l, db, it
vars == <<t, l, db, it>>
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
Tr == Traces[t]
Cfg == Tr[1]
Its == 1..2
Off == [on |-> FALSE, p |-> 0, vis |-> {}, must |-> {}, skips |-> 0, inv |-> FALSE]

Init == /\ t \in 1..Len(Traces)
        /\ l = 2
        /\ db = Empty(Traces[t][1].K)
        /\ it = [i \in Its |-> Off]

MinOr0(S) == IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j
MaxOr0(S) == IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k >= j
Ge(d, k) == { j \in Present(d) : j >= k }
Gt(d, k) == { j \in Present(d) : j > k }
Lt(d, k) == { j \in Present(d) : j < k }
Le(d, k) == { j \in Present(d) : j <= k }

(* What a database change made by someone else does to an iterator. *)
Follow(s, d, d2, cleared) ==
  IF Cfg.kind = "lazy" THEN (IF cleared THEN [s EXCEPT !.p = 0] ELSE s)
  ELSE IF Cfg.kind = "eager" THEN
    (IF s.p # 0 /\ d2[s.p] = Absent THEN [s EXCEPT !.p = MinOr0(Gt(d2, s.p))] ELSE s)
  ELSE LET gone == { k \in DOMAIN d : d[k] # Absent /\ d2[k] = Absent }
           new  == { k \in DOMAIN d : d[k] = Absent /\ d2[k] # Absent }
       IN [s EXCEPT !.inv = @ \/ cleared \/ (gone \ (s.vis \ {s.p})) # {} \/ (Cfg.reh = 1 /\ new # {}),
                    !.vis = @ \ gone, !.must = @ \ gone,
                    !.p = IF s.p \in gone THEN 0 ELSE s.p]

(* ---- ordered iterators: (new position, result) of a movement *)
Move(s, e) ==
  CASE e.o = "first" -> [p |-> MinOr0(Present(db)), r |-> "ok"]
    [] e.o = "last"  -> [p |-> MaxOr0(Present(db)), r |-> "ok"]
    [] e.o = "jump"  -> [p |-> IF Cfg.kind = "lazy" THEN e.k ELSE MinOr0(Ge(db, e.k)), r |-> "ok"]
    [] e.o = "jl"    -> [p |-> MaxOr0(IF e.c = 1 THEN Le(db, e.k) ELSE Lt(db, e.k)), r |-> "ok"]
    [] e.o = "ju"    -> [p |-> MinOr0(IF e.c = 1 THEN Ge(db, e.k) ELSE Gt(db, e.k)), r |-> "ok"]
    [] e.o = "next"  -> IF s.p = 0 THEN [p |-> 0, r |-> "nf"] ELSE [p |-> MinOr0(Gt(db, s.p)), r |-> "ok"]
    [] e.o = "prev"  -> IF s.p = 0 THEN [p |-> 0, r |-> "nf"] ELSE [p |-> MaxOr0(Lt(db, s.p)), r |-> "ok"]
Moves == {"first", "last", "jump", "jl", "ju", "next", "prev"}
Cur(s) == IF s.p = 0 THEN 0 ELSE MinOr0(Ge(db, s.p))

Act(e) == CASE e.o \in {"iget", "istep"} -> <<0, << >>>>
            [] e.o = "irem" -> <<1, << >>>>
            [] e.o = "iset" -> <<2, e.v>>
            [] e.o = "iproc" -> IF e.w = 1 THEN e.fa ELSE <<0, << >>>>

OrdUse(s, e) ==
  LET k == Cur(s) IN
  IF k = 0 THEN /\ e.r[1] = "nf"
                /\ db' = db
                /\ it' = [it EXCEPT ![e.i].p = 0]
  ELSE LET nv == ActVal(db[k], Act(e))
           d2 == [db EXCEPT ![k] = nv]
           mp == IF e.o = "istep" THEN MinOr0(Gt(db, k))
                 ELSE IF Cfg.kind = "eager" /\ nv = Absent THEN MinOr0(Gt(db, k)) ELSE k
       IN /\ e.r = <<"ok", k, db[k]>>
          /\ db' = d2
          /\ it' = [i \in Its |-> IF i = e.i THEN [s EXCEPT !.p = mp] ELSE Follow(it[i], db, d2, FALSE)]

(* ---- unordered iterators *)
HashMove(s, e) ==
  CASE e.o = "first" -> /\ e.r = <<"ok">>
                        /\ it' = [it EXCEPT ![e.i] = [on |-> TRUE, p |-> 0, vis |-> {}, must |-> Present(db), skips |-> 0, inv |-> FALSE]]
    [] e.o = "jump"  -> IF db[e.k] # Absent
                        THEN /\ e.r = <<"ok">>
                             /\ it' = [it EXCEPT ![e.i] = [on |-> TRUE, p |-> e.k, vis |-> {e.k}, must |-> {}, skips |-> 0, inv |-> FALSE]]
                        ELSE e.r = <<"nf">> /\ it' = [it EXCEPT ![e.i] = Off]
    [] e.o \in {"last", "jl", "ju", "prev"} -> e.r = <<"nimp">> /\ UNCHANGED it
    [] e.o = "next"  ->
         IF e.r = <<"ok">>
         THEN s.on /\ it' = [it EXCEPT ![e.i].p = 0, ![e.i].skips = IF s.p = 0 THEN @ + 1 ELSE @]
         ELSE /\ e.r = <<"nf">>
              /\ \/ ~s.on \/ s.inv
                 \/ s.p = 0 /\ Cardinality(s.must \ s.vis) <= s.skips
              /\ UNCHANGED it
HashUse(s, e) ==
  IF e.r[1] = "nf"
  THEN /\ \/ ~s.on \/ s.inv
          \/ s.p = 0 /\ Cardinality(s.must \ s.vis) <= s.skips
       /\ UNCHANGED <<db, it>>
  ELSE LET k == e.r[2] IN
       /\ k \in Present(db)
       /\ s.on
       /\ IF s.p # 0 THEN s.inv \/ k = s.p ELSE (k \notin s.vis \/ (Cfg.reh = 1 /\ s.inv))
       /\ e.r = <<"ok", k, db[k]>>
       /\ LET nv == ActVal(db[k], Act(e))
              d2 == [db EXCEPT ![k] = nv]
              s2 == [s EXCEPT !.p = IF nv = Absent \/ e.o = "istep" THEN 0 ELSE k,
                              !.vis = IF nv = Absent THEN @ \ {k} ELSE @ \cup {k},
                              !.must = @ \ {k}]
          IN /\ db' = d2
             /\ it' = [i \in Its |-> IF i = e.i THEN s2 ELSE Follow(it[i], db, d2, FALSE)]

Uses == {"iget", "istep", "irem", "iset", "iproc"}
Step ==
  /\ l <= Len(Tr)
  /\ LET e == Tr[l] IN
     IF e.o \in KVNames
     THEN LET a == Apply(db, e, Cfg) IN
          /\ ResultOK(a, e)
          /\ db' = a.db
          /\ it' = [i \in Its |-> Follow(it[i], db, a.db, e.o = "clear")]
     ELSE IF e.o \in Moves THEN
          /\ UNCHANGED db
          /\ IF Cfg.kind = "hash" THEN HashMove(it[e.i], e)
             ELSE LET m == Move(it[e.i], e) IN
                  e.r = <<m.r>> /\ it' = [it EXCEPT ![e.i].p = m.p]
     ELSE IF e.o \in Uses THEN
          IF Cfg.kind = "hash" THEN HashUse(it[e.i], e) ELSE OrdUse(it[e.i], e)
     ELSE IF e.o = "newit" THEN UNCHANGED db /\ it' = [it EXCEPT ![e.i] = Off]
     ELSE IF e.o = "again" THEN e.r = <<"ok">> /\ UNCHANGED db /\ it' = [i \in Its |-> Off]
     ELSE IF e.o \in {"sync", "inspect"} THEN e.r = <<"ok">> /\ UNCHANGED <<db, it>>
     ELSE FALSE
  /\ l' = l + 1
  /\ UNCHANGED t
Done == l > Len(Tr) /\ UNCHANGED vars
Next == Step \/ Done
=============================================================================
