----------------------------- MODULE ConcTrace -----------------------------
(* Concurrent histories are linearizable with respect to the ideal map: S is *)
(* the set of all configurations (database, phase of every pending call) the *)
(* ideal database can be in after the events consumed so far; an empty set   *)
(* means that no order of the calls explains their results.  A call takes    *)
(* effect at one instant between its invocation and its return; effects are  *)
(* enumerated just before the return that needs them.  With Cfg.fifo = 1 the *)
(* calls of one client take effect in the order of their invocation.         *)
(* Searching for the first record is not an instant where records are locked *)
(* one by one (Cfg.sf = 0): if other calls overlap with it, it may return    *)
(* any stored record, or none.                                               *)
EXTENDS KVOps, Json, IOUtils
VARIABLES t, l, S, pend, db0
vars == <<t, l, S, pend, db0>>
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
Tr == Traces[t]
Cfg == Tr[1]
NoOp == [o |-> "none"]

Init == /\ t \in 1..Len(Traces)
        /\ l = 2
        /\ db0 = Empty(Traces[t][1].K)
        /\ S = { [d |-> Empty(Traces[t][1].K), st |-> [i \in 1..Traces[t][1].P |-> 0]] }
        /\ pend = [i \in 1..Traces[t][1].P |-> [th |-> 0, at |-> 0, op |-> NoOp, act |-> FALSE, ov |-> FALSE]]

Maint == {"rebuild", "sync"}
(* the configurations reached when the call i of configuration c takes effect *)
Lin(c, i) ==
  LET e == pend[i].op IN
  IF c.st[i] # 1 THEN {}
  ELSE IF Cfg.fifo = 1 /\ \E j \in DOMAIN pend : c.st[j] = 1 /\ pend[j].th = pend[i].th /\ pend[j].at < pend[i].at THEN {}
  ELSE IF e.o \in Maint THEN (IF e.r = <<"ok">> THEN { [c EXCEPT !.st[i] = 2] } ELSE {})
  ELSE IF e.o \in {"popfirst", "procfirst"} /\ Cfg.sf = 0 /\ pend[i].ov /\ e.r = <<"nf", 0, Absent>>
       THEN { [c EXCEPT !.st[i] = 2] }
  ELSE LET a == Apply(c.d, e, IF Cfg.sf = 0 /\ pend[i].ov THEN [Cfg EXCEPT !.fo = 0] ELSE Cfg) IN
       IF ResultOK(a, e) THEN { [d |-> a.db, st |-> [c.st EXCEPT ![i] = 2]] } ELSE {}
RECURSIVE Reach(_, _, _)
Reach(F, i, done) ==      \* F: configurations in which call i has not taken effect yet
  LET N  == UNION { UNION { Lin(c, j) : j \in DOMAIN pend } : c \in F }
      D  == { c \in N : c.st[i] = 2 }
      F2 == N \ D
  IN IF N = {} THEN done ELSE Reach(F2, i, done \cup D)

Step ==
  /\ l <= Len(Tr)
  /\ LET e == Tr[l] IN
     CASE e.o = "inv" ->
            /\ pend' = [i \in DOMAIN pend |->
                         IF i = e.id THEN [th |-> e.th, at |-> l, op |-> e.op, act |-> TRUE, ov |-> \E j \in DOMAIN pend : pend[j].act]
                         ELSE [pend[i] EXCEPT !.ov = TRUE]]
            /\ S' = { [c EXCEPT !.st[e.id] = 1] : c \in S }
       [] e.o = "ret" ->
            LET D  == { c \in S : c.st[e.id] = 2 }
                S2 == Reach(S \ D, e.id, D)
            IN /\ S2 # {}
               /\ S' = { [c EXCEPT !.st[e.id] = 0] : c \in S2 }
               /\ pend' = [pend EXCEPT ![e.id].act = FALSE]
       [] e.o = "seq" ->
            LET S2 == { c \in S : ResultOK(Apply(c.d, e.op, Cfg), e.op) } IN
            /\ S2 # {}
            /\ S' = S2
            /\ UNCHANGED pend
       [] e.o = "ulog" ->
            LET S2 == { c \in S : Replay(db0, e.l, 1) = c.d } IN
            /\ S2 # {}
            /\ S' = S2
            /\ UNCHANGED pend
       [] e.o = "reopen" -> e.r = <<"ok">> /\ UNCHANGED <<S, pend>>
       [] OTHER -> FALSE
  /\ l' = l + 1
  /\ UNCHANGED <<t, db0>>
Done == l > Len(Tr) /\ UNCHANGED vars
Next == Step \/ Done
=============================================================================
