------------------------------- MODULE FileConc -------------------------------
(* Concurrent histories of a file object: some order of the calls, each taking *)
(* effect at one instant between its invocation and its return, explains all   *)
(* results.  S is the set of all possible (array, phases of the calls).  In    *)
(* the classes which promise no atomicity the histories only touch ranges of   *)
(* their own, for which the same must hold.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES t, l, S, pend
vars == <<t, l, S, pend>>
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
Tr == Traces[t]
Cfg == Tr[1]

Init == /\ t \in 1..Len(Traces)
        /\ l = 2
        /\ S = { [b |-> << >>, st |-> [i \in 1..Traces[t][1].P |-> 0]] }
        /\ pend = [i \in 1..Traces[t][1].P |-> [o |-> "none"]]

Grow(b, n) == IF n <= Len(b) THEN b ELSE b \o [i \in 1..(n - Len(b)) |-> 0]
Put(b, off, v) ==
  LET g == Grow(b, off + Len(v)) IN
  [i \in DOMAIN g |-> IF i > off /\ i <= off + Len(v) THEN v[i - off] ELSE g[i]]
(* [ok, b]: can the call have this result on this array, and the next array *)
Apply(b, e) ==
  CASE e.o = "read" -> [ok |-> IF e.off + e.n <= Len(b) THEN e.r = <<"ok", SubSeq(b, e.off + 1, e.off + e.n)>> ELSE e.r[1] = "infs", b |-> b]
    [] e.o = "write" -> [ok |-> e.r = <<"ok">>, b |-> Put(b, e.off, e.v)]
    [] e.o = "append" -> [ok |-> e.r = <<"ok", Len(b)>>, b |-> b \o e.v]
    [] e.o = "expand" -> [ok |-> e.r = <<"ok", Len(b)>>, b |-> Grow(b, Len(b) + e.n)]
    [] e.o = "size" -> [ok |-> e.r = <<"ok", Len(b)>>, b |-> b]
    [] e.o = "sync" -> [ok |-> e.r = <<"ok">>, b |-> b]
    [] e.o = "trunc" -> [ok |-> e.r = <<"ok">>, b |-> IF e.n <= Len(b) THEN SubSeq(b, 1, e.n) ELSE Grow(b, e.n)]
    [] OTHER -> [ok |-> FALSE, b |-> b]
Lin(c, i) ==
  IF c.st[i] # 1 THEN {}
  ELSE LET a == Apply(c.b, pend[i]) IN IF a.ok THEN { [b |-> a.b, st |-> [c.st EXCEPT ![i] = 2]] } ELSE {}
RECURSIVE Reach(_, _, _)
Reach(F, i, done) ==
  LET N == UNION { UNION { Lin(c, j) : j \in DOMAIN pend } : c \in F }
      D == { c \in N : c.st[i] = 2 }
  IN IF N = {} THEN done ELSE Reach(N \ D, i, done \cup D)

Step ==
  /\ l <= Len(Tr)
  /\ LET e == Tr[l] IN
     CASE e.o = "begin" -> e.r = <<"ok">> /\ S' = { [c EXCEPT !.b = e.v] : c \in S } /\ UNCHANGED pend
       [] e.o = "inv" -> /\ pend' = [pend EXCEPT ![e.id] = e.op]
                         /\ S' = { [c EXCEPT !.st[e.id] = 1] : c \in S }
       [] e.o = "ret" -> LET D  == { c \in S : c.st[e.id] = 2 }
                             S2 == Reach(S \ D, e.id, D)
                         IN /\ S2 # {}
                            /\ S' = { [c EXCEPT !.st[e.id] = 0] : c \in S2 }
                            /\ UNCHANGED pend
       [] e.o = "final" -> LET S2 == { c \in S : c.b = e.r } IN S2 # {} /\ S' = S2 /\ UNCHANGED pend
       [] OTHER -> FALSE
  /\ l' = l + 1
  /\ UNCHANGED t
Done == l > Len(Tr) /\ UNCHANGED vars
Next == Step \/ Done
=============================================================================
