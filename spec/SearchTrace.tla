------------------------------ MODULE SearchTrace -----------------------------
(* Searching the keys of a database and the lines of a text file. The state is *)
(* the set of keys and the sequence of lines, each a sequence of byte codes;   *)
(* what a search may return is defined from the meaning of its mode.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES t, l, c
vars == <<t, l, c>>
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
Tr == Traces[t]
Cfg == Tr[1]
Min(a, b) == IF a < b THEN a ELSE b
Range(s) == { s[i] : i \in DOMAIN s }

\* ---- strings
At(s, p, i) == \A j \in 1..Len(p) : s[i + j - 1] = p[j]
Begins(s, p) == Len(p) <= Len(s) /\ At(s, p, 1)
Ends(s, p) == Len(p) <= Len(s) /\ At(s, p, Len(s) - Len(p) + 1)
Contains(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : At(s, p, i)
Low(x) == IF x \in 65..90 THEN x + 32 ELSE x
Lower(s) == [i \in DOMAIN s |-> Low(s[i])]
Alnum(x) == x \in 48..57 \/ x \in 65..90 \/ x \in 97..122
(* the pattern stands at i and no word goes on across its ends *)
WordAt(s, p, i) ==
  /\ At(s, p, i)
  /\ i = 1 \/ ~(Alnum(s[i - 1]) /\ Alnum(s[i]))
  /\ i + Len(p) > Len(s) \/ ~(Alnum(s[i + Len(p)]) /\ Alnum(s[i + Len(p) - 1]))
Words(s, p) == p = << >> \/ \E i \in 1..(Len(s) - Len(p) + 1) : WordAt(s, p, i)
RECURSIVE Cut(_, _, _)
Cut(s, i, w) == IF i > Len(s) THEN (IF w = << >> THEN {} ELSE {w})
                ELSE IF s[i] = 10 THEN (IF w = << >> THEN {} ELSE {w}) \cup Cut(s, i + 1, << >>)
                ELSE Cut(s, i + 1, Append(w, s[i]))
Parts(p) == Cut(p, 1, << >>)   \* what a batch pattern asks for
RECURSIVE Less(_, _)
Less(a, b) == IF b = << >> THEN FALSE
              ELSE IF a = << >> THEN TRUE
              ELSE a[1] < b[1] \/ (a[1] = b[1] /\ Less(Tail(a), Tail(b)))
Before(a, b) == IF Cfg.ord = 2 THEN Less(Lower(a), Lower(b)) ELSE Less(a, b)
RECURSIVE Chars(_, _)
(* the characters of a string of UTF-8 *)
Chars(s, i) == IF i > Len(s) THEN << >>
               ELSE LET n == IF s[i] >= 240 THEN 4 ELSE IF s[i] >= 224 THEN 3 ELSE IF s[i] >= 192 THEN 2 ELSE 1
                    IN <<SubSeq(s, i, i + n - 1)>> \o Chars(s, i + n)

\* ---- edit distance
Min3(a, b, d) == Min(a, Min(b, d))
RECURSIVE Row(_, _, _, _)
Row(r, ch, b, acc) == LET j == Len(acc) IN
  IF j > Len(b) THEN acc
  ELSE Row(r, ch, b, Append(acc, Min3(r[j + 1] + 1, acc[j] + 1, r[j] + (IF ch = b[j] THEN 0 ELSE 1))))
RECURSIVE LevR(_, _, _)
LevR(a, b, r) == IF a = << >> THEN r[Len(b) + 1] ELSE LevR(Tail(a), b, Row(r, a[1], b, <<r[1] + 1>>))
Lev(a, b) == LevR(a, b, [i \in 1..(Len(b) + 1) |-> i - 1])
Dist(m, s, p) == IF m = "edit" THEN Lev(Chars(s, 1), Chars(p, 1)) ELSE Lev([i \in DOMAIN s |-> <<s[i]>>], [i \in DOMAIN p |-> <<p[i]>>])

\* ---- regular expressions, given as trees: where a match which begins at i may end
RECURSIVE REnds(_, _, _), RStar(_, _, _, _)
REnds(n, s, i) ==
  CASE n[1] = "c" -> IF i <= Len(s) /\ s[i] = n[2] THEN {i + 1} ELSE {}
    [] n[1] = "set" -> IF i <= Len(s) /\ s[i] \in Range(n[2]) THEN {i + 1} ELSE {}
    [] n[1] = "not" -> IF i <= Len(s) /\ s[i] \notin Range(n[2]) THEN {i + 1} ELSE {}
    [] n[1] = "any" -> IF i <= Len(s) THEN {i + 1} ELSE {}
    [] n[1] = "bol" -> IF i = 1 THEN {i} ELSE {}
    [] n[1] = "eol" -> IF i = Len(s) + 1 THEN {i} ELSE {}
    [] n[1] = "cat" -> UNION { REnds(n[3], s, j) : j \in REnds(n[2], s, i) }
    [] n[1] = "alt" -> REnds(n[2], s, i) \cup REnds(n[3], s, i)
    [] n[1] = "opt" -> {i} \cup REnds(n[2], s, i)
    [] n[1] = "star" -> RStar(n[2], s, {i}, {i})
    [] n[1] = "plus" -> UNION { RStar(n[2], s, {j}, {j}) : j \in REnds(n[2], s, i) }
    [] OTHER -> {}
RStar(n, s, new, all) == LET x == UNION { REnds(n, s, j) : j \in new } \ all
                         IN IF x = {} THEN all ELSE RStar(n, s, x, all \cup x)
RMatch(n, s) == \E i \in 1..(Len(s) + 1) : REnds(n, s, i) # {}

\* ---- the modes
Match(e, s) ==
  CASE e.m = "contain" -> Contains(s, e.p)
    [] e.m = "begin" -> Begins(s, e.p)
    [] e.m = "end" -> Ends(s, e.p)
    [] e.m = "containcase" -> Contains(Lower(s), Lower(e.p))
    [] e.m = "containword" -> Words(s, e.p)
    [] e.m = "containcaseword" -> Words(Lower(s), Lower(e.p))
    [] e.m = "contain*" -> \E p \in Parts(e.p) : Contains(s, p)
    [] e.m = "containcase*" -> \E p \in Parts(e.p) : Contains(Lower(s), Lower(p))
    [] e.m = "containword*" -> \E p \in Parts(e.p) : Words(s, p)
    [] e.m = "containcaseword*" -> \E p \in Parts(e.p) : Words(Lower(s), Lower(p))
    [] e.m = "regex" -> IF e.ic = 1 THEN RMatch(e.re, Lower(s)) ELSE RMatch(e.re, s)
    [] e.m = "upper" -> Before(e.p, s)
    [] e.m = "upperinc" -> ~Before(s, e.p)
    [] e.m = "lower" -> Before(s, e.p)
    [] e.m = "lowerinc" -> ~Before(e.p, s)
    [] OTHER -> FALSE
OrderMode(m) == m \in {"upper", "upperinc", "lower", "lowerinc"}
EditMode(m) == m \in {"edit", "editbin"}
Upto(n, cap) == IF cap = 0 THEN n ELSE Min(n, cap)
Distinct(r) == Cardinality(Range(r)) = Len(r)

Keys(e, K) ==
  LET r == e.r[2] IN
  IF e.m = "bad" THEN e.r[1] = "inv"
  ELSE IF OrderMode(e.m) /\ Cfg.ord = 0 THEN e.r[1] = "nimp"
  ELSE IF e.m = "regex" /\ e.re[1] = "bad" THEN e.r[1] = "inv"
  ELSE IF EditMode(e.m) THEN
    LET d == TLCEval([k \in K |-> Dist(e.m, k, e.p)]) IN
    /\ e.r[1] = "ok" /\ Distinct(r) /\ Range(r) \subseteq K /\ Len(r) = Upto(Cardinality(K), e.cap)
    /\ \A i \in 2..Len(r) : d[r[i - 1]] <= d[r[i]]
    /\ Len(r) > 0 => \A k \in K \ Range(r) : d[k] >= d[r[Len(r)]]
  ELSE
    LET S == { k \in K : Match(e, k) } IN
    /\ e.r[1] = "ok" /\ Distinct(r) /\ Range(r) \subseteq S
    /\ IF e.m = "begin" /\ Cfg.ord = 2 THEN Len(r) <= Upto(Cardinality(S), e.cap)
       ELSE Len(r) = Upto(Cardinality(S), e.cap)
    /\ OrderMode(e.m) =>
         LET up == e.m \in {"upper", "upperinc"} IN
         /\ \A i \in 2..Len(r) : IF up THEN Before(r[i - 1], r[i]) ELSE Before(r[i], r[i - 1])
         /\ Len(r) > 0 => \A k \in S \ Range(r) : IF up THEN Before(r[Len(r)], k) ELSE Before(k, r[Len(r)])

Times(s, v) == Cardinality({ i \in DOMAIN s : s[i] = v })
FileLines(e, L) ==
  LET r == e.r[2] IN
  IF e.m = "bad" \/ OrderMode(e.m) THEN e.r[1] = "inv"
  ELSE IF e.m = "regex" /\ e.re[1] = "bad" THEN e.r[1] = "inv"
  ELSE IF EditMode(e.m) THEN
    LET V == Range(L)
        d == TLCEval([v \in V |-> Dist(e.m, v, e.p)]) IN
    /\ e.r[1] = "ok" /\ Range(r) \subseteq V /\ Len(r) = Upto(Len(L), e.cap)
    /\ \A i \in 2..Len(r) : d[r[i - 1]] <= d[r[i]]
    /\ \A v \in V : Times(r, v) <= Times(L, v)
    /\ Len(r) > 0 => \A v \in V : Times(r, v) < Times(L, v) => d[v] >= d[r[Len(r)]]
  ELSE LET S == SelectSeq(L, LAMBDA s : Match(e, s))
       IN e.r = <<"ok", SubSeq(S, 1, Upto(Len(S), e.cap))>>

Apply(s, e) ==
  CASE e.o = "set" -> [ok |-> e.r = "ok", s |-> [s EXCEPT !.k = @ \cup {e.k}]]
    [] e.o = "rem" -> [ok |-> e.r = (IF e.k \in s.k THEN "ok" ELSE "nf"), s |-> [s EXCEPT !.k = @ \ {e.k}]]
    [] e.o = "keep" -> [ok |-> e.r = "ok", s |-> s]
    [] e.o = "text" -> [ok |-> e.r = "ok", s |-> [s EXCEPT !.x = e.x]]
    [] e.o = "keys" -> [ok |-> Keys(e, s.k), s |-> s]
    [] e.o = "lines" -> [ok |-> FileLines(e, s.x), s |-> s]
    [] OTHER -> [ok |-> FALSE, s |-> s]

Init == t \in 1..Len(Traces) /\ l = 2 /\ c = [k |-> {}, x |-> << >>]
Step == /\ l <= Len(Tr)
        /\ LET a == Apply(c, Tr[l]) IN a.ok /\ c' = a.s
        /\ l' = l + 1
        /\ UNCHANGED t
Done == l > Len(Tr) /\ UNCHANGED vars
Next == Step \/ Done
===============================================================================
