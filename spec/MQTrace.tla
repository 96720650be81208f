------------------------------ MODULE MQTrace ------------------------------
(* Sequential histories of a message queue: msgs is the sequence of the     *)
(* messages <<timestamp, id>> in it, now the timestamp of the queue, synced *)
(* the number of messages an outside reader is promised to see.  A reader   *)
(* has a minimum timestamp and the index of the last message it delivered.  *)
(* `recs' of an event are recoveries of storage snapshots taken during it:  *)
(* the process died at that instant.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES t, l, msgs, now, low, synced, open, rds
vars == <<t, l, msgs, now, low, synced, open, rds>>
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
Tr == Traces[t]
Cfg == Tr[1]
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE Flat(_, _)
Flat(fs, i) == IF i > Len(fs) THEN << >> ELSE fs[i] \o Flat(fs, i + 1)
LastTs(m) == IF m = << >> THEN 0 ELSE m[Len(m)][1]

Init == /\ t \in 1..Len(Traces)
        /\ l = 2 /\ msgs = << >> /\ now = 0 /\ low = 0 /\ synced = 0 /\ open = FALSE
        /\ rds = << >>     \* id -> [min, pos, can]; ids are 1, 2, ...

(* index of the next message of a reader, or 0 *)
NextOf(m, rd) ==
  LET C == { i \in (rd.pos + 1)..Len(m) : m[i][1] >= rd.min }
  IN IF C = {} THEN 0 ELSE CHOOSE i \in C : \A j \in C : i <= j

(* What a recovery at an instant between the old and the new state shows: *)
(* <<kind, open, end, messages, timestamp, write, its timestamp, rest same, reopened same>> *)
RecOK(x, m1, m2, lo, hi) ==
  /\ x[2] = "ok" /\ x[3] = "infs"
  /\ x[4] \in {m1, m2}
  /\ x[5] >= LastTs(x[4]) /\ x[5] >= lo /\ x[5] <= hi
  /\ x[6] = "ok" /\ x[7] = x[5] /\ x[8] = 1 /\ x[9] = 1
RecsOK(e, m1, m2, lo, hi) ==
  "recs" \in DOMAIN e => \A i \in DOMAIN e.recs : RecOK(e.recs[i], m1, m2, lo, hi)

IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
(* Files b before and a after a removal: a kept file list is b without some files. *)
RECURSIVE RmOK(_, _, _, _, _, _)
RmOK(b, a, i, j, thr, ex) ==
  IF i > Len(b) THEN j = Len(a) + 1
  ELSE \/ /\ j <= Len(a) /\ b[i] = a[j]
          /\ TRUE = ((\E x \in DOMAIN b[i] : b[i][x][1] >= thr) \/ (ex /\ i = Len(b)) \/ now >= thr)
          /\ RmOK(b, a, i + 1, j + 1, thr, ex)
       \/ /\ \A x \in DOMAIN b[i] : b[i][x][1] < thr
          /\ ~(ex /\ i = Len(b))
          /\ RmOK(b, a, i + 1, j, thr, ex)

Step ==
  /\ l <= Len(Tr)
  /\ LET e == Tr[l] IN
     CASE e.o = "open" ->
            /\ e.r = <<"ok">> /\ ~open
            /\ RecsOK(e, msgs, msgs, low, now)
            /\ open' = TRUE /\ synced' = Len(msgs) /\ UNCHANGED <<msgs, now, low, rds>>
       [] e.o = "w" ->
            /\ e.r = <<"ok">>
            /\ now' = Max2(now, e.ts)
            /\ msgs' = Append(msgs, <<Max2(now, e.ts), e.id>>)
            /\ low' = low
            /\ synced' = IF Cfg.hard = 1 THEN Len(msgs') ELSE synced
            /\ RecsOK(e, msgs, msgs', low, now')
            /\ UNCHANGED <<open, rds>>
       [] e.o = "wbad" -> e.r = <<"inv">> /\ UNCHANGED <<msgs, now, low, synced, open, rds>>
       [] e.o = "wclosed" -> e.r = <<"pre", "pre", "pre", -1>> /\ UNCHANGED <<msgs, now, low, synced, open, rds>>
       [] e.o = "upts" ->
            /\ e.r = <<"ok">> /\ now' = Max2(now, e.ts) /\ UNCHANGED <<msgs, low, synced, open, rds>>
       [] e.o = "gts" -> e.r = <<now>> /\ UNCHANGED <<msgs, now, low, synced, open, rds>>
       [] e.o = "sync" ->
            /\ e.r = <<"ok">> /\ RecsOK(e, msgs, msgs, low, now)
            /\ synced' = Len(msgs) /\ low' = now /\ UNCHANGED <<msgs, now, open, rds>>
       [] e.o = "mk" ->
            /\ e.id = Len(rds) + 1
            /\ rds' = Append(rds, [min |-> e.min, pos |-> 0, can |-> FALSE])
            /\ UNCHANGED <<msgs, now, low, synced, open>>
       [] e.o = "del" -> UNCHANGED <<msgs, now, low, synced, open, rds>>
       [] e.o = "rd" ->
            LET rd == rds[e.id]
                x  == NextOf(msgs, rd)
            IN IF ~open \/ rd.can
               THEN e.r[1] = "can" /\ UNCHANGED <<msgs, now, low, synced, open, rds>>
               ELSE IF x = 0
               THEN e.r[1] = "infs" /\ e.r[2] = now /\ UNCHANGED <<msgs, now, low, synced, open, rds>>
               ELSE /\ e.r = <<"ok", msgs[x][1], msgs[x][2]>>
                    /\ rds' = [rds EXCEPT ![e.id].pos = x]
                    /\ UNCHANGED <<msgs, now, low, synced, open>>
       [] e.o = "wt" ->
            LET rd == rds[e.id] IN
            /\ IF rd.can THEN e.r = <<"can">>
               ELSE \/ e.r = <<"ok">> /\ Len(msgs) > rd.pos
                    \/ e.r = <<"infs">> /\ NextOf(msgs, rd) = 0
            /\ UNCHANGED <<msgs, now, low, synced, open, rds>>
       [] e.o = "rgt" ->
            LET rd == rds[e.id] IN
            /\ IF rd.pos > 0 THEN e.r = <<msgs[rd.pos][1]>> ELSE e.r[1] < rd.min
            /\ UNCHANGED <<msgs, now, low, synced, open, rds>>
       [] e.o = "cancel" ->
            /\ e.r = <<"ok">>
            /\ rds' = [i \in DOMAIN rds |-> [rds[i] EXCEPT !.can = TRUE]]
            /\ UNCHANGED <<msgs, now, low, synced, open>>
       [] e.o = "dump" -> Flat(e.b, 1) = msgs /\ UNCHANGED <<msgs, now, low, synced, open, rds>>
       [] e.o = "all" -> e.r = <<"infs", msgs>> /\ UNCHANGED <<msgs, now, low, synced, open, rds>>
       [] e.o = "ro" ->
            /\ IF msgs = << >> /\ e.r[1] = "nf" THEN TRUE = (e.r[5] = "pre")
               ELSE TRUE = (e.r[1] = "ok" /\ e.r[2] = "nf" /\ e.r[3] = msgs /\ e.r[4] = "nf" /\ e.r[5] # "ok")
            /\ UNCHANGED <<msgs, now, low, synced, open, rds>>
       [] e.o = "rolive" ->
            /\ e.r[1] = "ok" /\ e.r[2] = "nf" /\ IsPrefix(e.r[3], msgs) /\ Len(e.r[3]) >= synced
            /\ UNCHANGED <<msgs, now, low, synced, open, rds>>
       [] e.o = "rm" ->
            /\ e.r = <<"ok">> /\ Flat(e.b, 1) = msgs
            /\ TRUE = RmOK(e.b, e.a, 1, 1, e.thr, e.ex = 1)
            /\ msgs' = Flat(e.a, 1)
            /\ now' = IF e.a = << >> THEN 0 ELSE now
            /\ low' = IF e.a = << >> THEN 0 ELSE low
            /\ synced' = Max2(0, synced - (Len(msgs) - Len(msgs')))
            /\ UNCHANGED <<open, rds>>
       [] e.o = "close" ->
            /\ e.r = <<"ok">> /\ RecsOK(e, msgs, msgs, low, now)
            /\ open' = FALSE /\ synced' = Len(msgs) /\ low' = now /\ UNCHANGED <<msgs, now, rds>>
       [] e.o = "die" ->
            /\ e.r[1] = "ok" /\ e.r[2] >= Max2(low, LastTs(msgs)) /\ e.r[2] <= now
            /\ now' = e.r[2] /\ synced' = synced
            /\ UNCHANGED <<msgs, low, open, rds>>
       [] OTHER -> FALSE
  /\ l' = l + 1
  /\ UNCHANGED t
Done == l > Len(Tr) /\ UNCHANGED vars
Next == Step \/ Done
=============================================================================
