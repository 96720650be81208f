------------------------------- MODULE FileTrace -------------------------------
(* A file object is a resizable array of cells.  `disk' is what the file holds  *)
(* while it is closed (or None), `buf' the array while it is open.  The value   *)
(* Wild (-1) marks cells whose contents are not promised: what lies behind the   *)
(* end after a fake truncation, `hi' being the end of that zone.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES t, l, disk, buf, st
vars == <<t, l, disk, buf, st>>
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
Tr == Traces[t]
Cfg == Tr[1]
Wild == -1
Off == [on |-> FALSE, w |-> FALSE, hi |-> 0]

Init == /\ t \in 1..Len(Traces)
        /\ l = 2
        /\ disk = [has |-> FALSE, v |-> << >>]
        /\ buf = << >>
        /\ st = Off

Max(a, b) == IF a > b THEN a ELSE b
Same(real, model) == /\ Len(real) = Len(model)
                     /\ \A i \in DOMAIN model : model[i] = Wild \/ model[i] = real[i]
Zeros(n, from, hi) == [i \in 1..n |-> IF from + i <= hi THEN Wild ELSE 0]
Grow(b, n, hi) == IF n <= Len(b) THEN b ELSE b \o Zeros(n - Len(b), Len(b), hi)
Put(b, off, v, hi) ==
  LET g == Grow(b, off + Len(v), hi) IN
  [i \in DOMAIN g |-> IF i > off /\ i <= off + Len(v) THEN v[i - off] ELSE g[i]]
Cut(b, n, hi) == IF n <= Len(b) THEN SubSeq(b, 1, n) ELSE Grow(b, n, hi)
Padded(b) == IF Cfg.pad = 0 \/ Len(b) % Cfg.pad = 0 THEN b
             ELSE b \o [i \in 1..(Cfg.pad - (Len(b) % Cfg.pad)) |-> Wild]

Open(e) ==
  IF st.on THEN FALSE
  ELSE IF ~disk.has /\ (e.w = 0 \/ e.nc = 1) THEN e.r = <<"nf">> /\ UNCHANGED <<disk, buf, st>>
  ELSE /\ e.r = <<"ok">>
       /\ buf' = IF e.tr = 1 /\ e.w = 1 THEN << >> ELSE disk.v
       /\ disk' = [disk EXCEPT !.has = TRUE]
       /\ st' = [on |-> TRUE, w |-> e.w = 1, hi |-> 0]
Close(e) ==
  /\ e.r = <<"ok">>
  /\ disk' = [has |-> TRUE, v |-> IF st.w THEN Padded(buf) ELSE buf]
  /\ buf' = << >>
  /\ st' = Off

RO(e) == ~st.w /\ e.r[1] = "pre" /\ UNCHANGED buf
Use(e) ==
  CASE e.o = "read" ->
         /\ IF e.off + e.n <= Len(buf)
            THEN e.r[1] = "ok" /\ Same(e.r[2], SubSeq(buf, e.off + 1, e.off + e.n))
            ELSE e.r[1] = "infs"
         /\ UNCHANGED <<buf, st>>
    [] e.o = "write" ->
         /\ UNCHANGED st
         /\ IF st.w THEN e.r = <<"ok">> /\ buf' = Put(buf, e.off, e.v, st.hi) ELSE RO(e)
    [] e.o = "append" ->
         /\ UNCHANGED st
         /\ IF st.w THEN e.r = <<"ok", Len(buf)>> /\ buf' = buf \o e.v ELSE RO(e)
    [] e.o = "expand" ->
         /\ UNCHANGED st
         /\ IF st.w THEN e.r = <<"ok", Len(buf)>> /\ buf' = Grow(buf, Len(buf) + e.n, st.hi) ELSE RO(e)
    [] e.o = "trunc" ->
         /\ UNCHANGED st
         /\ IF st.w THEN e.r = <<"ok">> /\ buf' = Cut(buf, e.n, st.hi) ELSE RO(e)
    [] e.o = "fake" ->
         IF e.big = 1 THEN e.r = <<"infs">> /\ UNCHANGED <<buf, st>>
         ELSE e.r = <<"ok">> /\ buf' = SubSeq(buf, 1, e.n) /\ st' = [st EXCEPT !.hi = Max(@, Len(buf))]
    [] e.o = "sync" -> /\ (st.w \/ e.c = "std") => e.r = <<"ok">>
                       /\ ~(st.w \/ e.c = "std") => e.r = <<"pre">>
                       /\ UNCHANGED <<buf, st>>
    [] e.o = "size" -> e.r = <<"ok", Len(buf), 1, 1, 1>> /\ UNCHANGED <<buf, st>>
    [] e.o \in {"rename", "head"} -> e.r = <<"ok">> /\ UNCHANGED <<buf, st>>
    [] e.o = "renamebad" -> e.r[1] # "ok" /\ UNCHANGED <<buf, st>>
    [] e.o = "again" -> e.r = <<"pre">> /\ UNCHANGED <<buf, st>>
    [] e.o = "child" ->
         /\ e.r = (IF e.nl = 1 \/ (~st.w /\ e.w = 0) THEN <<"ok">> ELSE <<"locked">>)
         /\ UNCHANGED <<buf, st>>
    [] e.o = "ext" ->        \* the file seen from outside after a synchronization
         /\ Len(e.r) >= Len(buf) \/ Len(e.r) = 300
         /\ LET n == IF Len(e.r) < Len(buf) THEN Len(e.r) ELSE Len(buf)
            IN Same(SubSeq(e.r, 1, n), SubSeq(buf, 1, n))
         /\ UNCHANGED <<buf, st>>
    [] OTHER -> FALSE

Step ==
  /\ l <= Len(Tr)
  /\ LET e == Tr[l] IN
     IF e.o = "open" THEN Open(e)
     ELSE IF e.o = "close" THEN st.on /\ Close(e)
     ELSE IF e.o = "closed" THEN ~st.on /\ (\A i \in DOMAIN e.r : e.r[i] = "pre") /\ UNCHANGED <<disk, buf, st>>
     ELSE IF e.o = "ext" /\ e.cl = 1 THEN ~st.on /\ Same(e.r, disk.v) /\ UNCHANGED <<disk, buf, st>>
     ELSE st.on /\ Use(e) /\ UNCHANGED disk
  /\ l' = l + 1
  /\ UNCHANGED t
Done == l > Len(Tr) /\ UNCHANGED vars
Next == Step \/ Done
=============================================================================
