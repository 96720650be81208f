------------------------------- MODULE SkipConc ------------------------------
(* Concurrent histories of a skip database: one order of the calls, each taking       *)
(* effect between its invocation and its return, explains every result.        *)
EXTENDS SkipTrace
VARIABLES S, pend
cvars == <<t, l, c, S, pend>>
CInit == /\ t \in 1..Len(Traces)
         /\ l = 2
         /\ c = 0
         /\ S = { [s |-> Fresh(Traces[t][1].I), st |-> [i \in 1..Traces[t][1].I |-> 0]] }
         /\ pend = [i \in 1..Traces[t][1].I |-> [o |-> "none"]]
Lin(x, i) ==
  IF x.st[i] # 1 THEN {}
  ELSE LET a == Apply(x.s, pend[i]) IN IF a.ok THEN { [s |-> a.s, st |-> [x.st EXCEPT ![i] = 2]] } ELSE {}
RECURSIVE Reach(_, _, _)
Reach(F, i, done) ==
  LET N == UNION { UNION { Lin(x, j) : j \in DOMAIN pend } : x \in F }
      D == { x \in N : x.st[i] = 2 }
  IN IF N = {} THEN done ELSE Reach(N \ D, i, done \cup D)
CStep ==
  /\ l <= Len(Tr)
  /\ LET e == Tr[l] IN
     CASE e.o = "inv" -> /\ pend' = [pend EXCEPT ![e.id] = e.op]
                         /\ S' = { [x EXCEPT !.st[e.id] = 1] : x \in S }
       [] e.o = "ret" -> LET D  == { x \in S : x.st[e.id] = 2 }
                             S2 == Reach(S \ D, e.id, D)
                         IN /\ S2 # {}
                            /\ S' = { [x EXCEPT !.st[e.id] = 0] : x \in S2 }
                            /\ UNCHANGED pend
       [] OTHER -> FALSE
  /\ l' = l + 1
  /\ UNCHANGED <<t, c>>
CDone == l > Len(Tr) /\ UNCHANGED cvars
CNext == CStep \/ CDone
===============================================================================
