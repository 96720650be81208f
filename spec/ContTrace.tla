------------------------------- MODULE ContTrace ------------------------------
(* The containers: two linked hash maps (sequences of pairs between which      *)
(* records migrate), an LRU cache, a double LRU cache, a set and a bounded     *)
(* heap.  m1/m2 are the sequences, the oldest first.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES t, l, m1, m2
vars == <<t, l, m1, m2>>
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
Tr == Traces[t]
Cfg == Tr[1]
Init == t \in 1..Len(Traces) /\ l = 2 /\ m1 = << >> /\ m2 = << >>

Has(q, k) == \E i \in DOMAIN q : q[i][1] = k
Val(q, k) == q[CHOOSE i \in DOMAIN q : q[i][1] = k][2]
Drop(q, k) == SelectSeq(q, LAMBDA x : x[1] # k)
Rep(q, k, v) == [i \in DOMAIN q |-> IF q[i][1] = k THEN <<k, v>> ELSE q[i]]
Move(q, k, m) == IF m = 0 \/ ~Has(q, k) THEN q
                 ELSE IF m = 1 THEN << <<k, Val(q, k)>> >> \o Drop(q, k)
                 ELSE Append(Drop(q, k), <<k, Val(q, k)>>)
Put(q, k, v, m) == IF Has(q, k) THEN Move(Rep(q, k, v), k, m)
                   ELSE IF m = 1 THEN << <<k, v>> >> \o q ELSE Append(q, <<k, v>>)
Rev(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
B(x) == IF x THEN 1 ELSE 0

(* Operations of one map q: the result must be r, the next map is q. *)
Mp(q, e) ==
  CASE e.o = "get" -> [r |-> IF Has(q, e.k) THEN <<Val(q, e.k)>> ELSE << >>, q |-> Move(q, e.k, e.m)]
    [] e.o = "set" -> IF Has(q, e.k) /\ e.w = 0 THEN [r |-> <<Val(q, e.k)>>, q |-> q]
                      ELSE [r |-> <<e.v>>, q |-> Put(q, e.k, e.v, e.m)]
    [] e.o = "ref" -> LET p == IF Has(q, e.k) THEN q ELSE Append(q, <<e.k, 0>>)
                      IN [r |-> <<Val(p, e.k)>>, q |-> IF e.v = 0 THEN p ELSE Rep(p, e.k, e.v)]
    [] e.o = "ins" -> IF Has(q, e.k) THEN [r |-> <<0, Val(q, e.k)>>, q |-> q]
                      ELSE [r |-> <<1, e.v>>, q |-> Append(q, <<e.k, e.v>>)]
    [] e.o = "find" -> [r |-> IF Has(q, e.k) THEN <<Val(q, e.k)>> ELSE << >>, q |-> q]
    [] e.o = "rem" -> [r |-> <<B(Has(q, e.k))>>, q |-> Drop(q, e.k)]
    [] e.o = "clear" -> [r |-> << >>, q |-> << >>]
    [] e.o = "rehash" -> [r |-> << >>, q |-> q]
    [] e.o = "ends" -> [r |-> IF q = << >> THEN << >> ELSE <<q[1], q[Len(q)]>>, q |-> q]
    [] e.o = "scan" -> [r |-> <<q, Rev(q), Len(q), B(q = << >>)>>, q |-> q]
    [] OTHER -> [r |-> <<-1, -1, -1, -1, -1>>, q |-> q]

Lru(e) ==
  /\ UNCHANGED m2
  /\ CASE e.o = "add" -> IF Has(m1, e.k) THEN e.r = <<Val(m1, e.k)>> /\ UNCHANGED m1
                         ELSE e.r = <<e.v>> /\ m1' = Append(m1, <<e.k, e.v>>)
       [] e.o = "back" -> m1' = Append(m1, <<e.k, e.v>>)
       [] e.o = "get" -> e.r = (IF Has(m1, e.k) THEN <<Val(m1, e.k)>> ELSE << >>) /\ m1' = Move(m1, e.k, 2)
       [] e.o = "rem" -> m1' = Drop(m1, e.k)
       [] e.o = "lru" -> e.r = (IF m1 = << >> THEN << >> ELSE m1[1]) /\ m1' = (IF m1 = << >> THEN m1 ELSE Tail(m1))
       [] e.o = "stat" -> e.r = <<Len(m1), B(m1 = << >>), B(Len(m1) > Cfg.c1)>> /\ UNCHANGED m1
       [] e.o = "scan" -> e.r = m1 /\ UNCHANGED m1
       [] e.o = "clear" -> m1' = << >>
       [] OTHER -> FALSE

(* m1 is the hot part and m2 the warm one; promotion makes room in the hot     *)
(* part by moving its least recently used entry to the end of the warm one.    *)
Dbl(e) ==
  CASE e.o = "add" -> /\ UNCHANGED m1
                      /\ IF Has(m1, e.k) THEN e.r = <<Val(m1, e.k)>> /\ UNCHANGED m2
                         ELSE IF Has(m2, e.k) THEN e.r = <<Val(m2, e.k)>> /\ UNCHANGED m2
                         ELSE e.r = <<e.v>> /\ m2' = Append(m2, <<e.k, e.v>>)
    [] e.o = "back" -> m2' = Append(m2, <<e.k, e.v>>) /\ UNCHANGED m1
    [] e.o = "get" ->
         IF Has(m1, e.k) THEN e.r = <<Val(m1, e.k)>> /\ m1' = Move(m1, e.k, 2) /\ UNCHANGED m2
         ELSE IF e.w = 0 THEN e.r = (IF Has(m2, e.k) THEN <<Val(m2, e.k)>> ELSE << >>) /\ m2' = Move(m2, e.k, 2) /\ UNCHANGED m1
         ELSE LET full == Len(m1) >= Cfg.c1
                  h == IF full THEN Tail(m1) ELSE m1
                  w == IF full THEN Append(m2, m1[1]) ELSE m2
              IN IF Has(w, e.k)
                 THEN e.r = <<Val(w, e.k)>> /\ m1' = Append(h, <<e.k, Val(w, e.k)>>) /\ m2' = Drop(w, e.k)
                 ELSE e.r = << >> /\ m1' = h /\ m2' = w
    [] e.o = "rem" -> IF Has(m1, e.k) THEN m1' = Drop(m1, e.k) /\ UNCHANGED m2 ELSE m2' = Drop(m2, e.k) /\ UNCHANGED m1
    [] e.o = "lru" -> IF m2 # << >> THEN e.r = m2[1] /\ m2' = Tail(m2) /\ UNCHANGED m1
                      ELSE /\ e.r = (IF m1 = << >> THEN << >> ELSE m1[1])
                           /\ m1' = (IF m1 = << >> THEN m1 ELSE Tail(m1))
                           /\ UNCHANGED m2
    [] e.o = "stat" -> e.r = <<Len(m1) + Len(m2), B(m1 = << >> /\ m2 = << >>), B(Len(m2) > Cfg.c2)>> /\ UNCHANGED <<m1, m2>>
    [] e.o = "scan" -> e.r = m1 \o m2 /\ UNCHANGED <<m1, m2>>
    [] e.o = "clear" -> m1' = << >> /\ m2' = << >>
    [] OTHER -> FALSE

Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Heap(e) ==      \* the smallest pairs in ascending order
  /\ UNCHANGED <<m1, m2>>
  /\ Len(e.r) = (IF Len(e.in) < e.cap THEN Len(e.in) ELSE e.cap)
  /\ \A i \in 1..(Len(e.r) - 1) : ~Less(e.r[i + 1], e.r[i])
  /\ \A x \in { e.in[i] : i \in DOMAIN e.in } \cup { e.r[i] : i \in DOMAIN e.r } :
       LET a == Cardinality({ i \in DOMAIN e.in : e.in[i] = x })
           b == Cardinality({ i \in DOMAIN e.r : e.r[i] = x })
       IN /\ b <= a
          /\ (b < a /\ e.r # << >>) => ~Less(x, e.r[Len(e.r)])

Step ==
  /\ l <= Len(Tr)
  /\ LET e == Tr[l] IN
     CASE Cfg.what = "lru" -> Lru(e)
       [] Cfg.what = "dbl" -> Dbl(e)
       [] Cfg.what = "heap" -> Heap(e)
       [] e.o = "mig" ->       \* from map e.x to the other
            LET s == IF e.x = 1 THEN m1 ELSE m2
                d == IF e.x = 1 THEN m2 ELSE m1
                has == Has(s, e.k)
                s2 == Drop(s, e.k)
                d2 == IF has THEN Put(d, e.k, Val(s, e.k), e.m) ELSE d
            IN /\ e.r = (IF has THEN <<Val(s, e.k)>> ELSE << >>)
               /\ m1' = (IF e.x = 1 THEN s2 ELSE d2)
               /\ m2' = (IF e.x = 1 THEN d2 ELSE s2)
       [] OTHER -> LET a == Mp(IF e.x = 1 THEN m1 ELSE m2, e) IN
                   /\ e.r = a.r
                   /\ m1' = (IF e.x = 1 THEN a.q ELSE m1)
                   /\ m2' = (IF e.x = 1 THEN m2 ELSE a.q)
  /\ l' = l + 1
  /\ UNCHANGED t
Done == l > Len(Tr) /\ UNCHANGED vars
Next == Step \/ Done
=============================================================================
