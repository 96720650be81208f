------------------------------- MODULE SetConc --------------------------------
(* Concurrent histories of the atomic set: some order of the calls, each       *)
(* taking effect between its invocation and return, explains all results.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES t, l, S, pend
vars == <<t, l, S, pend>>
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
Tr == Traces[t]
Init == /\ t \in 1..Len(Traces)
        /\ l = 2
        /\ S = { [b |-> {}, st |-> [i \in 1..Traces[t][1].P |-> 0]] }
        /\ pend = [i \in 1..Traces[t][1].P |-> [o |-> "none"]]
B(x) == IF x THEN 1 ELSE 0
Least(b) == CHOOSE x \in b : \A y \in b : x <= y
Apply(b, e) ==
  CASE e.o = "ins" -> [ok |-> e.r = B(e.v \notin b), b |-> b \cup {e.v}]
    [] e.o = "rem" -> [ok |-> e.r = B(e.v \in b), b |-> b \ {e.v}]
    [] e.o = "chk" -> [ok |-> e.r = B(e.v \in b), b |-> b]
    [] e.o = "emp" -> [ok |-> e.r = B(b = {}), b |-> b]
    [] e.o = "pop" -> IF b = {} THEN [ok |-> e.r = 0, b |-> b] ELSE [ok |-> e.r = Least(b), b |-> b \ {Least(b)}]
    [] e.o = "clr" -> [ok |-> TRUE, b |-> {}]
    [] OTHER -> [ok |-> FALSE, b |-> b]
Lin(c, i) ==
  IF c.st[i] # 1 THEN {}
  ELSE LET a == Apply(c.b, pend[i]) IN IF a.ok THEN { [b |-> a.b, st |-> [c.st EXCEPT ![i] = 2]] } ELSE {}
RECURSIVE Reach(_, _, _)
Reach(F, i, done) ==
  LET N == UNION { UNION { Lin(c, j) : j \in DOMAIN pend } : c \in F }
      D == { c \in N : c.st[i] = 2 }
  IN IF N = {} THEN done ELSE Reach(N \ D, i, done \cup D)
Step ==
  /\ l <= Len(Tr)
  /\ LET e == Tr[l] IN
     CASE e.o = "inv" -> /\ pend' = [pend EXCEPT ![e.id] = e.op]
                         /\ S' = { [c EXCEPT !.st[e.id] = 1] : c \in S }
       [] e.o = "ret" -> LET D  == { c \in S : c.st[e.id] = 2 }
                             S2 == Reach(S \ D, e.id, D)
                         IN /\ S2 # {}
                            /\ S' = { [c EXCEPT !.st[e.id] = 0] : c \in S2 }
                            /\ UNCHANGED pend
       [] OTHER -> FALSE
  /\ l' = l + 1
  /\ UNCHANGED t
Done == l > Len(Tr) /\ UNCHANGED vars
Next == Step \/ Done
=============================================================================
