------------------------------- MODULE MQConc -------------------------------
(* Concurrent histories of a message queue.  The final order of the messages *)
(* is in the header; writes must respect it in real time, and every reader   *)
(* must deliver, in that order, every message it is entitled to.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES t, l, inv, done, hi, rp, ri, ended, over
vars == <<t, l, inv, done, hi, rp, ri, ended, over>>
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
Tr == Traces[t]
Cfg == Tr[1]
Order == Cfg.order
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE Flat(_, _)
Flat(fs, i) == IF i > Len(fs) THEN << >> ELSE fs[i] \o Flat(fs, i + 1)

Init == /\ t \in 1..Len(Traces)
        /\ l = 2
        /\ inv = << >>      \* id -> <<highest completed position at the call, requested timestamp>>
        /\ done = {}        \* positions of completed writes
        /\ hi = 0
        /\ rp = [i \in 1..Cfg.R |-> 0]
        /\ ri = [i \in 1..Cfg.R |-> [done |-> {}, ended |-> FALSE]]
        /\ ended = FALSE /\ over = FALSE

NextPos(d) ==
  LET C == { p \in (rp[d] + 1)..Len(Order) : Order[p][1] >= Cfg.min[d] }
  IN IF C = {} THEN 0 ELSE CHOOSE p \in C : \A x \in C : p <= x

Step ==
  /\ l <= Len(Tr)
  /\ LET e == Tr[l] IN
     CASE e.o = "wi" ->
            /\ inv' = (e.id :> [hi |-> hi, ts |-> e.ts]) @@ inv
            /\ UNCHANGED <<done, hi, rp, ri, ended, over>>
       [] e.o = "wr" ->
            LET p == Cfg.pos[e.id] IN
            /\ e.r = "ok" /\ p > inv[e.id].hi
            /\ TRUE = (Order[p][1] = IF p = 1 THEN inv[e.id].ts ELSE Max2(Order[p - 1][1], inv[e.id].ts))
            /\ done' = done \cup {p} /\ hi' = Max2(hi, p)
            /\ UNCHANGED <<inv, rp, ri, ended, over>>
       [] e.o = "ri" ->
            /\ ri' = [ri EXCEPT ![e.rd] = [done |-> done, ended |-> over]]
            /\ UNCHANGED <<inv, done, hi, rp, ended, over>>
       [] e.o = "rr" ->
            LET p == NextPos(e.rd) IN
            /\ CASE e.r = "ok" /\ e.wt = 0 ->
                      /\ p > 0 /\ e.id = Order[p][2] /\ e.ts = Order[p][1] /\ e.id \in DOMAIN inv
                      /\ ~ri[e.rd].ended
                      /\ rp' = [rp EXCEPT ![e.rd] = p]
                 [] e.r = "ok" /\ e.wt = 1 ->
                      /\ rp[e.rd] < Len(Order) /\ Order[rp[e.rd] + 1][2] \in DOMAIN inv /\ UNCHANGED rp
                 [] e.r = "infs" ->
                      /\ e.w >= 0 /\ e.el >= e.w
                      /\ ~(p > 0 /\ p \in ri[e.rd].done)
                      /\ ~ri[e.rd].ended
                      /\ UNCHANGED rp
                 [] e.r = "can" -> ended /\ UNCHANGED rp
                 [] OTHER -> FALSE
            /\ UNCHANGED <<inv, done, hi, ri, ended, over>>
       [] e.o = "ei" -> ended' = TRUE /\ UNCHANGED <<inv, done, hi, rp, ri, over>>
       [] e.o = "er" -> e.r = "ok" /\ over' = TRUE /\ UNCHANGED <<inv, done, hi, rp, ri, ended>>
       [] e.o = "quiet" ->      \* nothing is left undelivered when the writers are quiet
            /\ \A d \in 1..Cfg.R : NextPos(d) = 0
            /\ UNCHANGED <<inv, done, hi, rp, ri, ended, over>>
       [] e.o = "fin" ->
            /\ Cfg.end = "infs" /\ Len(Order) = Cfg.N /\ done = 1..Cfg.N
            /\ Flat(Cfg.files, 1) = Order
            /\ (ended \/ \A d \in 1..Cfg.R : NextPos(d) = 0)
            /\ UNCHANGED <<inv, done, hi, rp, ri, ended, over>>
       [] OTHER -> FALSE
  /\ l' = l + 1
  /\ UNCHANGED t
Done == l > Len(Tr) /\ UNCHANGED vars
Next == Step \/ Done
=============================================================================
