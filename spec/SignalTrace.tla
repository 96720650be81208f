----------------------------- MODULE SignalTrace -----------------------------
(* Signal brokers and the wait counter.  Waiter i belongs to thread i.  A       *)
(* waiter is registered from its construction on; a signal marks the registered *)
(* waiters of its key (all, or one); a wait succeeds exactly when its waiter is  *)
(* marked; a mark given to one waiter only is passed on when that waiter goes    *)
(* away without having used it.  Every operation takes effect at some moment     *)
(* between its call and its return, and an execution may only get stuck in waits *)
(* without a time limit which no signal concerns.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES t, l, S, pend, bad
vars == <<t, l, S, pend, bad>>
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
Tr == Traces[t]
Cfg == Tr[1]
None == [op |-> "none", k |-> 0, n |-> 0, all |-> 0, tm |-> 0]
\* c.w[i]: state of waiter i (none, reg, all, one: marked, off: has used its signal), c.k[i]: its key,
\* c.st[i]: 0 idle, 1 called, 2 wait entered, 3 effect done; c.r[i]: the result.
Init == /\ t \in 1..Len(Traces)
        /\ l = 1
        /\ LET P == 1..Traces[t][1].P IN
           /\ S = { [w |-> [i \in P |-> "none"], k |-> [i \in P |-> 0], n |-> Traces[t][1].init,
                     st |-> [i \in P |-> 0], r |-> [i \in P |-> 0]] }
           /\ pend = [i \in P |-> None]
        /\ bad = FALSE
Threads == DOMAIN pend
Fin(c, i, r) == [c EXCEPT !.st[i] = 3, !.r[i] = r]
\* All ways of giving a signal for key k to one waiter.
Give(c, k) == { [c EXCEPT !.w[j] = "one"] : j \in { j \in Threads : c.w[j] = "reg" /\ c.k[j] = k } }
Regs(c, k) == { j \in Threads : c.w[j] = "reg" /\ c.k[j] = k }
LinSignal(c, i, o) ==
  CASE o.op = "ctor" -> { Fin([c EXCEPT !.w[i] = "reg", !.k[i] = o.k], i, 0) }
    [] o.op = "send" ->
         IF Regs(c, o.k) = {} THEN { Fin(c, i, 0) }
         ELSE IF o.all = 1
              THEN { Fin([c EXCEPT !.w = [j \in Threads |-> IF j \in Regs(c, o.k) THEN "all" ELSE c.w[j]]], i, 1) }
              ELSE { Fin(d, i, 1) : d \in Give(c, o.k) }
    [] o.op = "wait" ->
         IF c.st[i] = 1
         THEN { [c EXCEPT !.st[i] = 2, !.w[i] = IF c.w[i] = "off" THEN "reg" ELSE c.w[i]] }
         ELSE IF c.w[i] \in {"all", "one"} THEN { Fin([c EXCEPT !.w[i] = "off"], i, 1) }
         ELSE IF o.tm = 1 THEN { Fin(c, i, 0) } ELSE {}
    [] o.op = "dtor" ->
         LET d == [c EXCEPT !.w[i] = "none"]
         IN IF c.w[i] = "one" /\ Regs(d, c.k[i]) # {}
            THEN { Fin(x, i, 0) : x \in Give(d, c.k[i]) } ELSE { Fin(d, i, 0) }
    [] OTHER -> {}
LinCount(c, i, o) ==
  CASE o.op = "add" -> { Fin([c EXCEPT !.n = @ + o.n], i, 0) }
    [] o.op = "done" -> { Fin([c EXCEPT !.n = @ - o.n], i, 0) }
    [] o.op = "get" -> { Fin(c, i, c.n) }
    [] o.op = "wait" -> IF c.n <= 0 THEN { Fin(c, i, 1) } ELSE IF o.tm = 1 THEN { Fin(c, i, 0) } ELSE {}
    [] OTHER -> {}
Lin(c, i) == IF c.st[i] \notin {1, 2} THEN {}
             ELSE IF Cfg.kind = "count" THEN LinCount(c, i, pend[i]) ELSE LinSignal(c, i, pend[i])
RECURSIVE Closure(_, _)
Closure(F, acc) ==
  LET N == (UNION { UNION { Lin(c, j) : j \in Threads } : c \in F }) \ acc
  IN IF N = {} THEN acc ELSE Closure(N, acc \cup N)
MayStick(c) == \A i \in Threads :
  c.st[i] # 0 => /\ pend[i].op = "wait" /\ pend[i].tm = 0
                 /\ IF Cfg.kind = "count" THEN c.st[i] = 1 /\ c.n > 0 ELSE c.st[i] = 2 /\ c.w[i] = "reg"
Next ==
  /\ ~bad
  /\ \E q \in 1..Len(Tr[l].c) :
       LET x == Tr[l].c[q]
           e == Tr[x]
       IN /\ l' = x
          /\ CASE e.o = "inv" ->
                    /\ pend' = [pend EXCEPT ![e.i] = [op |-> e.op, k |-> e.k, n |-> e.n, all |-> e.all, tm |-> e.tm]]
                    /\ S' = { [c EXCEPT !.st[e.i] = 1] : c \in S }
                    /\ bad' = FALSE
               [] e.o = "ret" ->
                    LET D == { c \in Closure(S, S) : c.st[e.i] = 3 /\ c.r[e.i] = e.r }
                    IN /\ S' = { [c EXCEPT !.st[e.i] = 0, !.r[e.i] = 0] : c \in D }
                       /\ bad' = (D = {})
                       /\ pend' = [pend EXCEPT ![e.i] = None]
               [] e.o = "stuck" ->
                    /\ bad' = ~(\E c \in Closure(S, S) : MayStick(c))
                    /\ UNCHANGED <<S, pend>>
               [] OTHER -> bad' = TRUE /\ UNCHANGED <<S, pend>>
  /\ UNCHANGED t
Lawful == ~bad
==============================================================================
