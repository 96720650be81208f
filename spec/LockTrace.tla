------------------------------ MODULE LockTrace ------------------------------
(* The locks of the library: a lock guards a set of buckets (a plain mutex has *)
(* the single bucket 0).  A trace is the tree of all observed executions of a   *)
(* small program; every path of it must be a behaviour of this specification.   *)
(* Thread phases: idle, call (asks for the lock), hold, upg (holds shared and    *)
(* asks for exclusive), rel (releasing).                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES t, l, st, nb, bad
vars == <<t, l, st, nb, bad>>
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
Tr == Traces[t]
Cfg == Tr[1]
Idle == [ph |-> "idle", m |-> "s", op |-> "none", by |-> "key", ks |-> <<>>, all |-> FALSE, b |-> {},
         w |-> FALSE, con |-> FALSE, ch |-> FALSE, late |-> {}]
Init == /\ t \in 1..Len(Traces)
        /\ l = 1
        /\ st = [i \in 1..Traces[t][1].P |-> Idle]
        /\ nb = Traces[t][1].nb
        /\ bad = FALSE
Threads == DOMAIN st
Holds(x) == x.ph \in {"hold", "upg"}
Overlap(x, y) == x.all \/ y.all \/ x.b \cap y.b # {}
\* Nobody else holds what the thread holds now in a conflicting mode.
Excl(s, i) == \A j \in Threads \ {i} : Holds(s[j]) => ((s[i].m = "s" /\ s[j].m = "s") \/ ~Overlap(s[i], s[j]))
\* A thread which could be the reason of a failed try.
Exish(x) == CASE x.ph = "idle" -> FALSE
              [] x.ph = "call" -> x.op \in {"x", "tx"}
              [] x.ph = "upg"  -> TRUE
              [] OTHER -> x.m = "x" \/ x.op = "down"
Against(op, x) == IF op = "ts" \/ (op = "upw" /\ Cfg.kind = "wp") THEN Exish(x) ELSE x.ph # "idle"
\* Marks the pending tries of the others as contested by what thread i does now.
Mark(s, i) == [j \in Threads |-> IF j # i /\ s[j].ph \in {"call", "upg"} /\ Against(s[j].op, s[i])
                                 THEN [s[j] EXCEPT !.con = TRUE] ELSE s[j]]
\* The writers which are known to wait.
Waiting(s) == { j \in Threads : s[j].w /\ s[j].ph \in {"call", "upg"} }
Unlate(s, i) == [j \in Threads |-> [s[j] EXCEPT !.late = @ \ {i}]]
Bucket(k) == k % nb
WantB(x) == CASE Cfg.kind = "hash" -> IF x.by = "idx" THEN x.ks ELSE [q \in 1..Len(x.ks) |-> Bucket(x.ks[q])]
              [] Cfg.kind = "slot" -> x.ks
              [] OTHER -> <<0>>
Range(q) == { q[z] : z \in 1..Len(q) }
R(ok, s, n) == [ok |-> ok, s |-> s, n |-> n]
Apply(e) ==
  CASE e.o = "call" ->
         LET x == st[e.i]
             up == e.op \in {"up", "upw"}
             y == IF up
                  THEN [x EXCEPT !.ph = "upg", !.op = e.op, !.w = FALSE,
                        !.con = \E j \in Threads \ {e.i} : Against(e.op, st[j])]
                  ELSE [Idle EXCEPT !.ph = "call", !.op = e.op, !.by = e.by, !.ks = e.ks, !.all = (e.a = 1),
                        !.m = IF e.op \in {"x", "tx"} THEN "x" ELSE "s",
                        !.con = \E j \in Threads \ {e.i} : Against(e.op, st[j]),
                        !.ch = (e.by = "idx" /\ e.a = 0 /\ e.ks[1] >= nb),
                        !.late = IF e.op \in {"s", "ts"} THEN Waiting(st) ELSE {}]
         IN R(x.ph = (IF up THEN "hold" ELSE "idle"), Mark([st EXCEPT ![e.i] = y], e.i), nb)
    [] e.o = "wait" -> R(TRUE, [st EXCEPT ![e.i].w = TRUE], nb)
    [] e.o = "got" ->
         LET x == st[e.i]
             y == IF x.ph = "upg" THEN [x EXCEPT !.ph = "hold", !.m = "x", !.w = FALSE]
                  ELSE [x EXCEPT !.ph = "hold", !.b = IF x.all THEN {} ELSE Range(e.b), !.w = FALSE]
             s == Mark(Unlate([st EXCEPT ![e.i] = y], e.i), e.i)
             right == x.ph = "upg" \/ x.all \/
                      (e.b = WantB(x) /\ (Cfg.kind = "hash" => \A q \in Range(e.b) : q < nb))
         IN R(x.ph \in {"call", "upg"} /\ right /\ x.late = {} /\ Excl(s, e.i), s, nb)
    [] e.o = "fail" ->
         LET x == st[e.i]
             y == IF x.ph = "upg" THEN [x EXCEPT !.ph = "hold", !.w = FALSE] ELSE Idle
             may == CASE x.ph = "upg" -> x.con
                      [] x.op \in {"tx", "ts"} -> x.con
                      [] x.by = "idx" /\ ~x.all -> x.ch
                      [] OTHER -> FALSE
         IN R(x.ph \in {"call", "upg"} /\ may, Unlate([st EXCEPT ![e.i] = y], e.i), nb)
    [] e.o = "down" ->
         R(st[e.i].ph = "hold" /\ st[e.i].m = "x", Mark([st EXCEPT ![e.i].m = "s", ![e.i].op = "down"], e.i), nb)
    [] e.o = "downd" -> R(st[e.i].ph = "hold" /\ st[e.i].op = "down", [st EXCEPT ![e.i].op = "none"], nb)
    [] e.o = "rehash" ->
         R(st[e.i].ph = "hold" /\ st[e.i].m = "x" /\ st[e.i].all,
           [j \in Threads |-> IF st[j].ph = "call" THEN [st[j] EXCEPT !.ch = TRUE] ELSE st[j]], e.n)
    [] e.o = "rel" -> R(st[e.i].ph = "hold", [st EXCEPT ![e.i].ph = "rel"], nb)
    [] e.o = "reld" -> R(st[e.i].ph = "rel", [st EXCEPT ![e.i] = Idle], nb)
    [] OTHER -> R(FALSE, st, nb)
Next ==
  /\ ~bad
  /\ \E k \in 1..Len(Tr[l].c) :
       LET c == Tr[l].c[k]
           a == Apply(Tr[c])
       IN /\ l' = c
          /\ st' = a.s
          /\ nb' = a.n
          /\ bad' = ~a.ok
  /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Lawful == ~bad
==============================================================================
