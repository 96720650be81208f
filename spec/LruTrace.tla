------------------------------- MODULE LruTrace -------------------------------
(* A bounded cache database.  Every key belongs to a partition (Cfg.sl); a     *)
(* partition holds its records in the order of their last use and, when an     *)
(* insertion takes it over its capacity, loses the least recently used one.    *)
(* C is the set of possible caches: a record count limit decides evictions     *)
(* exactly, a memory limit only between a lower and an upper estimation.       *)
EXTENDS KVOps, Json, IOUtils
VARIABLES t, l, C, cap, mem, live, D, ro
vars == <<t, l, C, cap, mem, live, D, ro>>
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
Tr == Traces[t]
Cfg == Tr[1]
NS == Cfg.S
Nil == [s \in 1..NS |-> << >>]
Parts == 32

Init == /\ t \in 1..Len(Traces)
        /\ l = 2
        /\ C = { [s \in 1..Traces[t][1].S |-> << >>] }
        /\ cap = (Traces[t][1].cap \div Parts) + 1
        /\ mem = Traces[t][1].mem
        /\ live = TRUE
        /\ D = {} /\ ro = FALSE

Find(c, k) == LET q == c[Cfg.sl[k]] IN { i \in DOMAIN q : q[i][1] = k }
DB(c) == [k \in 1..Cfg.K |-> LET F == Find(c, k) IN IF F = {} THEN Absent ELSE c[Cfg.sl[k]][CHOOSE i \in F : TRUE][2]]
Drop(q, k) == SelectSeq(q, LAMBDA x : x[1] # k)

TokB(x) == IF x > 1000000 THEN 8 ELSE IF x > 200 THEN 1 ELSE IF x < 1 THEN 0 ELSE Cfg.tb[x]
RECURSIVE Sum(_, _)
Sum(v, i) == IF i > Len(v) THEN 0 ELSE TokB(v[i]) + Sum(v, i + 1)
RECURSIVE Bytes(_, _)
Bytes(q, i) == IF i > Len(q) THEN 0 ELSE Cfg.kb[q[i][1]] + Sum(q[i][2], 1) + Bytes(q, i + 1)
Limit == (mem \div Parts) + 1
Must(q) == Len(q) > cap \/ (mem > 0 /\ Bytes(q, 1) > Limit)
May(q) == Must(q) \/ (mem > 0 /\ Bytes(q, 1) + 64 * Len(q) + 8 * (2 * cap + 100) > Limit)
(* after an insertion *)
Settle(q) == (IF Must(q) THEN {} ELSE {q}) \cup (IF May(q) THEN {Tail(q)} ELSE {})

Use(c, k, nv) ==
  LET s == Cfg.sl[k]
      had == Find(c, k) # {}
      q == Drop(c[s], k)
  IN IF nv = Absent THEN { [c EXCEPT ![s] = q] }
     ELSE IF had THEN { [c EXCEPT ![s] = Append(q, <<k, nv>>)] }
     ELSE { [c EXCEPT ![s] = x] : x \in Settle(Append(q, <<k, nv>>)) }

One(c, e) == LET a == Apply(DB(c), e, Cfg) IN
             IF ResultOK(a, e) THEN Use(c, e.k, a.db[e.k]) ELSE {}
RECURSIVE Many(_, _, _)
Many(c, e, i) ==
  IF i > Len(e.pl) THEN {c}
  ELSE LET k == e.pl[i][1]
           a == Apply(DB(c), [o |-> "proc", k |-> k, w |-> e.w, fa |-> e.pl[i][2], ea |-> e.pl[i][3]], Cfg)
       IN IF a.r[2] # e.r[2][i] THEN {}
          ELSE UNION { Many(d, e, i + 1) : d \in Use(c, k, a.db[k]) }
Shown(c, list) ==
  /\ \A i \in DOMAIN list : list[i][1] \in 1..Cfg.K
  /\ \A s \in 1..NS : SelectSeq(list, LAMBDA x : Cfg.sl[x[1]] = s) = c[s]
Keep(q) == IF Len(q) <= cap' THEN q ELSE SubSeq(q, Len(q) - cap' + 1, Len(q))
RECURSIVE Fill(_, _, _)
Fill(Q, q, i) == IF i > Len(q) THEN Q ELSE Fill(UNION { Settle(Append(x, q[i])) : x \in Q }, q, i + 1)
RECURSIVE Reload(_, _)
Reload(c, s) == IF s > NS THEN {c}
                ELSE UNION { Reload([c EXCEPT ![s] = q], s + 1) : q \in Fill({<< >>}, c[s], 1) }
RECURSIVE Total(_, _)
Total(c, s) == IF s > NS THEN 0 ELSE Len(c[s]) + Total(c, s + 1)

Names == {"get", "getsz", "set", "rem", "app", "cmpx", "incr", "proc"}
Next1(c, e) ==
  CASE e.o \in Names -> One(c, e)
    [] e.o = "procm" -> IF e.r[1] = "ok" /\ Len(e.r[2]) = Len(e.pl) THEN Many(c, e, 1) ELSE {}
    [] e.o \in {"each", "scan"} -> IF e.r[1] = "ok" /\ Shown(c, e.r[2]) THEN {c} ELSE {}
    [] e.o = "proceach" ->
         IF ~Shown(c, e.r[2]) THEN {}
         ELSE IF e.w = 0 THEN {c}
         ELSE { [s \in 1..NS |-> SelectSeq([i \in DOMAIN c[s] |-> <<c[s][i][1], ActVal(c[s][i][2], e.as[c[s][i][1]])>>],
                                           LAMBDA x : x[2] # Absent)] }
    [] e.o \in {"popfirst", "procfirst"} ->
         IF Total(c, 1) = 0 THEN (IF e.r[1] = "nf" THEN {c} ELSE {})
         ELSE IF e.r[1] # "ok" \/ e.r[2] \notin 1..Cfg.K THEN {}
         ELSE LET k == e.r[2]
                  q == c[Cfg.sl[k]]
              IN IF q = << >> THEN {}
                 ELSE IF q[1] # <<k, e.r[3]>> THEN {}
                 ELSE IF e.o = "popfirst" THEN Use(c, k, Absent)
                 ELSE IF e.w = 0 THEN {c} ELSE Use(c, k, ActVal(q[1][2], e.fa))
    [] e.o = "count" -> IF e.r = <<"ok", Total(c, 1)>> THEN {c} ELSE {}
    [] e.o = "clear" -> IF e.r = <<"ok">> THEN {Nil} ELSE {}
    [] e.o = "sync" -> IF e.r = <<"ok">> THEN {c} ELSE {}
    [] OTHER -> {}

Step ==
  /\ l <= Len(Tr)
  /\ LET e == Tr[l] IN
     CASE e.o = "rebuild" ->
            /\ e.r = <<"ok">>
            /\ cap' = (e.cap \div Parts) + 1
            /\ C' = { [s \in 1..NS |-> Keep(c[s])] : c \in C }
            /\ UNCHANGED <<mem, live, D, ro>>
       [] e.o = "close" -> e.r = <<"ok">> /\ live /\ live' = FALSE
                          /\ C' = (IF ro THEN D ELSE C)      \* a read-only session leaves the file alone
                          /\ UNCHANGED <<cap, mem, D, ro>>
       [] e.o = "open" ->          \* the records come back in their order
            /\ e.r = <<"ok">>
            /\ ~live
            /\ live' = TRUE
            /\ cap' = (e.cap \div Parts) + 1
            /\ mem' = e.mem
            /\ D' = C /\ ro' = (e.w = 0)
            /\ UNCHANGED C
       [] e.o = "load" -> C' = UNION { Reload(c, 1) : c \in C } /\ UNCHANGED <<cap, mem, live, D, ro>>
       [] OTHER -> /\ live
                   /\ C' = UNION { Next1(c, e) : c \in C }
                   /\ C' # {}
                   /\ UNCHANGED <<cap, mem, live, D, ro>>
  /\ l' = l + 1
  /\ UNCHANGED t
Done == l > Len(Tr) /\ UNCHANGED vars
Next == Step \/ Done
(* No partition ever holds more than its capacity. *)
Bounded == \A c \in C : \A s \in DOMAIN c : live => Len(c[s]) <= cap \/ l <= 2
=============================================================================
