------------------------------ MODULE TaskTrace ------------------------------
(* The task queue: every task added before the queue is stopped runs exactly    *)
(* once, no task runs twice or after the stop, and stopping never hangs.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES t, l, called, added, ran, fin, must, up, bad
vars == <<t, l, called, added, ran, fin, must, up, bad>>
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
Tr == Traces[t]
Init == /\ t \in 1..Len(Traces)
        /\ l = 1 /\ called = {} /\ added = {} /\ ran = {} /\ fin = {} /\ must = {}
        /\ up = FALSE /\ bad = FALSE
Next ==
  /\ ~bad
  /\ \E q \in 1..Len(Tr[l].c) :
       LET z == Tr[l].c[q]
           e == Tr[z]
       IN /\ l' = z
          /\ called' = IF e.o = "add" THEN called \cup {e.x} ELSE called
          /\ added' = IF e.o = "added" THEN added \cup {e.x} ELSE added
          /\ ran' = IF e.o = "run" THEN ran \cup {e.x} ELSE ran
          /\ fin' = IF e.o = "end" THEN fin \cup {e.x} ELSE fin
          /\ must' = IF e.o = "stop" THEN added ELSE must
          /\ up' = IF e.o = "start" THEN TRUE ELSE IF e.o = "stopped" THEN FALSE ELSE up
          /\ bad' = ~(CASE e.o = "add" -> e.x \notin called
                        [] e.o = "added" -> e.x \in called
                        [] e.o = "run" -> e.x \in called /\ e.x \notin ran /\ up
                        [] e.o = "end" -> e.x \in ran /\ e.x \notin fin /\ up
                        [] e.o = "stopped" -> /\ ran = fin
                                              /\ Tr[1].drain = 1 => must \subseteq fin
                                              /\ e.n >= 0 /\ e.n <= Cardinality(called \ ran)
                        [] e.o \in {"start", "stop"} -> TRUE
                        [] OTHER -> FALSE)
  /\ UNCHANGED t
Lawful == ~bad
==============================================================================
