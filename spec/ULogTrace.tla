----------------------------- MODULE ULogTrace -----------------------------
(* Several databases with update loggers which share one message queue.     *)
(* Every operation publishes exactly its effective changes, in an order      *)
(* consistent per record (e.lg); qlog is the resulting content of the queue: *)
(* <<ts, server, index, key, value>>.  Replicas hold what replaying a part   *)
(* of the queue on a starting copy must give.                                *)
EXTENDS KVOps, Json, IOUtils
VARIABLES t, l, dbs, qlog, reps, from
vars == <<t, l, dbs, qlog, reps, from>>
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
Tr == Traces[t]
Cfg == Tr[1]

Init == /\ t \in 1..Len(Traces)
        /\ l = 2
        /\ dbs = [d \in 1..Traces[t][1].D |-> Empty(Traces[t][1].K)]
        /\ qlog = << >>
        /\ reps = << >>
        /\ from = << >>    \* next message a following replica reads

OrdCfg(d) == [fo |-> Cfg.ord[d], eo |-> Cfg.ord[d], so |-> 0]
OfKey(lg, k) == SelectSeq(lg, LAMBDA x : x[1] = k)
(* The changes an operation publishes, per key. *)
EachLog(e, db, k) ==
  IF e.w = 0 \/ db[k] = Absent THEN << >> ELSE ActLog(k, db[k], e.as[k])
LogOK(e, a, db) ==
  /\ \A i \in DOMAIN e.lg : e.lg[i][1] \in 0..Len(db)
  /\ \A k \in 0..Len(db) :
       OfKey(e.lg, k) = IF e.o = "proceach" THEN (IF k = 0 THEN << >> ELSE EachLog(e, db, k)) ELSE OfKey(a.log, k)
Tag(e, lg) == [i \in DOMAIN lg |-> <<e.ts, e.sid, e.idx, lg[i][1], lg[i][2]>>]
Match(f, x, any) == IF f = any THEN TRUE ELSE IF f < 0 THEN x # -f ELSE x = f
AsLog(q) == [i \in DOMAIN q |-> <<q[i][4], q[i][5]>>]
Sel(q, e, min) == SelectSeq(q, LAMBDA x : x[1] >= min /\ Match(e.fs, x[2], e.any) /\ Match(e.fi, x[3], e.any))
Base(p) == from[p].base

Step ==
  /\ l <= Len(Tr)
  /\ LET e == Tr[l] IN
     CASE e.o \in KVNames ->
            LET db == dbs[e.dbi]
                a  == Apply(db, e, OrdCfg(e.dbi))
            IN /\ (IF e.o = "scan" THEN TRUE = VisitOK(db, e.r[2], FALSE) ELSE TRUE = ResultOK(a, e))
               /\ TRUE = LogOK(e, a, db)
               /\ dbs' = [dbs EXCEPT ![e.dbi] = a.db]
               /\ qlog' = IF e.sid = -2 THEN qlog ELSE qlog \o Tag(e, e.lg)
               /\ UNCHANGED <<reps, from>>
       [] e.o = "maint" -> e.r = <<"ok">> /\ e.lg = << >> /\ UNCHANGED <<dbs, qlog, reps, from>>
       [] e.o = "mirror" -> e.r = Records(dbs[e.dbi]) /\ UNCHANGED <<dbs, qlog, reps, from>>
       [] e.o = "snap" ->
            /\ e.r = <<"ok", Records(dbs[e.dbi])>>
            /\ reps' = Append(reps, dbs[e.dbi])
            /\ from' = Append(from, [next |-> Len(qlog) + 1])
            /\ UNCHANGED <<dbs, qlog>>
       [] e.o = "replay" ->
            LET r2 == Replay(reps[e.p], AsLog(Sel(qlog, e, e.min)), 1) IN
            /\ e.r = <<"ok", Records(r2)>>
            /\ reps' = [reps EXCEPT ![e.p] = r2]
            /\ UNCHANGED <<dbs, qlog, from>>
       [] e.o = "follow" ->
            LET r2 == Replay(reps[e.p], AsLog(Sel(SubSeq(qlog, from[e.p].next, Len(qlog)), e, 0)), 1) IN
            /\ e.r = <<"infs", Records(r2)>>
            /\ reps' = [reps EXCEPT ![e.p] = r2]
            /\ from' = [from EXCEPT ![e.p].next = Len(qlog) + 1]
            /\ UNCHANGED <<dbs, qlog>>
       [] e.o = "conc" ->     \* a concurrent run: its log explains the contents and everything seen
            LET fin == Records(Replay(dbs[1], e.lg, 1)) IN
            /\ e.st = "ok" /\ e.st2 = "ok"
            /\ e.db = fin /\ e.mirror = fin /\ e.rep = fin /\ e.rep2 = fin
            /\ \A i \in DOMAIN e.seen :
                 \E j \in 1..e.seen[i][3] : e.lg[j] = <<e.seen[i][1], e.seen[i][2]>>
            /\ UNCHANGED <<dbs, qlog, reps, from>>
       [] OTHER -> FALSE
  /\ l' = l + 1
  /\ UNCHANGED t
Done == l > Len(Tr) /\ UNCHANGED vars
Next == Step \/ Done
=============================================================================
