------------------------------ MODULE IndexTrace ------------------------------
(* Secondary indices: a set of (key, value) pairs, each pair numbered by its   *)
(* place in the order of keys and then values, and iterators over them.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES t, l, c
vars == <<t, l, c>>
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
Tr == Traces[t]
Cfg == Tr[1]
First(b) == IF b = {} THEN 0 ELSE CHOOSE x \in b : \A y \in b : x <= y
Last(b) == IF b = {} THEN 0 ELSE CHOOSE x \in b : \A y \in b : y <= x
Above(b, p) == First({ x \in b : x > p })
Below(b, p) == Last({ x \in b : x < p })
RECURSIVE Sorted(_)
Sorted(b) == IF b = {} THEN << >> ELSE <<First(b)>> \o Sorted(b \ {First(b)})
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
B(x) == IF x THEN 1 ELSE 0
V == Cfg.V
ValsOf(b, k) == { x - (k - 1) * V : x \in { y \in b : y > (k - 1) * V /\ y <= k * V } }
Upto(s, n) == IF n = 0 \/ Len(s) <= n THEN s ELSE SubSeq(s, 1, n)
Is(x, y) == x = y
Fresh(n) == [b |-> {}, pos |-> [i \in 1..n |-> 0]]

(* one call: whether its result is right, and what follows *)
Apply(s, e) ==
  LET b == s.b
      At(p) == [ok |-> TRUE, s |-> [s EXCEPT !.pos[e.id] = p]]
      Says(x) == [ok |-> x, s |-> s]
  IN
  CASE e.o = "add" -> [ok |-> e.r = "ok", s |-> [s EXCEPT !.b = b \cup {e.p}]]
    [] e.o = "rem" -> [ok |-> e.r = "void" \/ e.r = (IF e.p \in b THEN "ok" ELSE "nf"),
                       s |-> [b |-> b \ {e.p},
                              pos |-> [i \in DOMAIN s.pos |-> IF s.pos[i] = e.p THEN Above(b, e.p) ELSE s.pos[i]]]]
    [] e.o = "chk" -> Says(e.r = B(e.p \in b))
    [] e.o = "vals" -> Says(e.r = Upto(Sorted(ValsOf(b, e.k)), e.mx))
    [] e.o = "cnt" -> Says(e.r = Cardinality(b))
    [] e.o = "scan" -> Says(e.r = Sorted(b))
    [] e.o = "scanr" -> Says(e.r = Rev(Sorted(b)))
    [] e.o = "clear" -> [ok |-> e.r = "ok", s |-> Fresh(Cfg.I)]
    [] e.o = "keep" -> Says(e.r = "ok")
    [] e.o = "inew" -> At(0)
    [] e.o = "ifirst" -> At(First(b))
    [] e.o = "ilast" -> At(Last(b))
    [] e.o = "ijump" -> At(Above(b, e.p - 1))
    [] e.o = "inext" -> At(IF s.pos[e.id] = 0 THEN 0 ELSE Above(b, s.pos[e.id]))
    [] e.o = "iprev" -> At(IF s.pos[e.id] # 0 THEN Below(b, s.pos[e.id]) ELSE IF Cfg.std = 1 THEN Last(b) ELSE 0)
    [] e.o = "iget" -> Says(e.r = s.pos[e.id])
    [] OTHER -> Says(FALSE)

Init == t \in 1..Len(Traces) /\ l = 2 /\ c = Fresh(Traces[t][1].I)
Step == /\ l <= Len(Tr)
        /\ LET a == Apply(c, Tr[l]) IN a.ok /\ c' = a.s
        /\ l' = l + 1
        /\ UNCHANGED t
Done == l > Len(Tr) /\ UNCHANGED vars
Next == Step \/ Done
(* an iterator is at a stored pair or at the end *)
Placed == l <= Len(Tr) => \A i \in DOMAIN c.pos : Cfg.std = 1 => c.pos[i] \in c.b \cup {0}
===============================================================================
