------------------------------ MODULE SkipTrace ------------------------------
(* The skip database: a published sequence of records in key order, in which  *)
(* a key may occur several times, and a batch of updates that becomes visible *)
(* only when the batch is published.  Keys are 1..K in key order.             *)
(*   vis   the published records <<k, v>>                                     *)
(*   mer   records of other skip databases to be merged at the publication    *)
(*   pend  the updates since the last publication, <<k, v>> or <<k, Rm>>      *)
(*   upd   whether the database has something to publish                      *)
(*   log   what the update logger was told since it was last read             *)
(*   pos   for each iterator the places where it may be; 0 is nowhere         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES t, l, c
vars == <<t, l, c>>
Traces == ndJsonDeserialize(IOEnv.TRACEFILE)
Tr == Traces[t]
Absent == <<-7>>
AnyVal == <<-8>>
Rm == <<-9>>
IntBase == 2000000
B(x) == IF x THEN 1 ELSE 0
Fresh(n) == [vis |-> << >>, mer |-> << >>, pend |-> << >>, upd |-> FALSE, log |-> << >>,
             pos |-> [i \in 1..n |-> {0}]]

(* ---- publication ---- *)
ValsFor(s, k) == LET q == SelectSeq(s, LAMBDA x : x[1] = k) IN [i \in DOMAIN q |-> q[i][2]]
RECURSIVE Live(_, _, _)
Live(vs, i, acc) == IF i > Len(vs) THEN acc
                    ELSE Live(vs, i + 1, IF vs[i] = Rm THEN << >> ELSE Append(acc, vs[i]))
RECURSIVE Join(_, _, _)
Join(vs, sep, i) == IF i = Len(vs) THEN vs[i] ELSE vs[i] \o sep \o Join(vs, sep, i + 1)
RECURSIVE Sum(_, _)
Sum(vs, i) == IF i > Len(vs) THEN 0 ELSE vs[i][1] - IntBase + Sum(vs, i + 1)
RECURSIVE Twice(_, _)
Twice(vs, i) == IF i > Len(vs) THEN << >> ELSE <<vs[i], vs[i]>> \o Twice(vs, i + 1)
Reduce(red, vs) ==
  IF vs = << >> THEN << >>
  ELSE CASE red = "none" \/ red = "remove" -> vs
         [] red = "first" -> <<vs[1]>>
         [] red = "second" -> <<IF Len(vs) > 1 THEN vs[2] ELSE vs[1]>>
         [] red = "last" -> <<vs[Len(vs)]>>
         [] red = "concat" -> <<Join(vs, << >>, 1)>>
         [] red = "concatnull" -> <<Join(vs, <<300>>, 1)>>
         [] red = "concattab" -> <<Join(vs, <<9>>, 1)>>
         [] red = "concatline" -> <<Join(vs, <<10>>, 1)>>
         [] red = "total" -> <<<<IntBase + Sum(vs, 1)>>>>
         [] red = "rev" -> [i \in DOMAIN vs |-> vs[Len(vs) + 1 - i]]
         [] red = "twice" -> Twice(vs, 1)
         [] red = "drop" -> << >>
RECURSIVE Pub(_, _, _, _)
Pub(all, red, ks, acc) ==
  IF ks = {} THEN acc
  ELSE LET k == CHOOSE x \in ks : \A y \in ks : x <= y
           vs == Reduce(red, Live(ValsFor(all, k), 1, << >>))
       IN Pub(all, red, ks \ {k}, acc \o [i \in DOMAIN vs |-> <<k, vs[i]>>])
Publish(s, red) ==
  LET all == s.vis \o s.mer \o s.pend
  IN [s EXCEPT !.vis = Pub(all, red, { all[i][1] : i \in DOMAIN all }, << >>),
               !.mer = << >>, !.pend = << >>, !.upd = FALSE,
               !.pos = [i \in DOMAIN s.pos |-> {0}]]

(* ---- reading ---- *)
Cur(s, k) == LET q == ValsFor(s.vis, k) IN IF q = << >> THEN Absent ELSE q[1]
Opt(v) == IF v = Absent THEN << >> ELSE <<v>>
W(s, ws) == [s EXCEPT !.pend = @ \o ws, !.upd = @ \/ ws # << >>, !.log = @ \o ws]
ActW(k, a) == IF a[1] = 0 THEN << >> ELSE IF a[1] = 1 THEN << <<k, Rm>> >> ELSE << <<k, a[2]>> >>
Matches(cur, x) == IF x = Absent THEN cur = Absent ELSE IF x = AnyVal THEN cur # Absent ELSE cur = x
Store(k, d) == IF d = AnyVal THEN << >> ELSE << <<k, IF d = Absent THEN Rm ELSE d>> >>
RECURSIVE Cat(_, _)
Cat(ss, i) == IF i > Len(ss) THEN << >> ELSE ss[i] \o Cat(ss, i + 1)
Least(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x <= y
Most(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x

(* one call: whether its result is right, and what follows *)
Apply(s, e) ==
  LET Says(x) == [ok |-> x, s |-> s]
      Does(x, n) == [ok |-> x, s |-> n]
      n == Len(s.vis)
      To(p) == [s EXCEPT !.pos[e.id] = p]
      Keys(P(_)) == { i \in 1..n : P(s.vis[i][1]) }
      At(i) == IF i = 0 THEN << >> ELSE <<s.vis[i]>>
  IN
  CASE e.o = "get" -> Says(e.r = Opt(Cur(s, e.k)))
    [] e.o = "set" ->
         LET cur == Cur(s, e.k)
             good == e.w = 1 \/ cur = Absent
         IN Does(e.st = (IF good THEN "ok" ELSE "dup") /\ (e.x = 1 => e.r = Opt(cur)),
                 IF good THEN W(s, << <<e.k, e.v>> >>) ELSE s)
    [] e.o = "rem" ->
         LET cur == Cur(s, e.k)
             good == e.x = 0 \/ cur # Absent
         IN Does(e.st = (IF good THEN "ok" ELSE "nf") /\ (e.x = 1 => e.r = Opt(cur)),
                 IF good THEN W(s, << <<e.k, Rm>> >>) ELSE s)
    [] e.o = "app" ->
         LET cur == Cur(s, e.k)
         IN Does(e.st = "ok", W(s, << <<e.k, IF cur = Absent THEN e.v ELSE cur \o e.d \o e.v>> >>))
    [] e.o = "cas" ->
         LET cur == Cur(s, e.k)
             good == Matches(cur, e.e)
         IN Does(e.st = (IF good THEN "ok" ELSE "infs") /\ e.r = Opt(cur),
                 IF good THEN W(s, Store(e.k, e.d)) ELSE s)
    [] e.o = "cxm" ->
         LET good == \A i \in DOMAIN e.es : Matches(Cur(s, e.es[i][1]), e.es[i][2])
         IN Does(e.st = (IF good THEN "ok" ELSE "infs"),
                 IF good THEN W(s, Cat([i \in DOMAIN e.ds |-> Store(e.ds[i][1], e.ds[i][2])], 1)) ELSE s)
    [] e.o = "inc" ->
         LET cur == Cur(s, e.k)
             v == (IF cur = Absent THEN e.i ELSE cur[1] - IntBase) + e.n
         IN Does(e.st = "ok" /\ e.r = v, W(s, << <<e.k, <<IntBase + v>>>> >>))
    [] e.o = "rekey" ->
         LET cur == Cur(s, e.k)
             want == IF cur = Absent THEN "nf"
                     ELSE IF e.w = 0 /\ Cur(s, e.k2) # Absent THEN "dup" ELSE "ok"
         IN Does(e.st = want /\ (want = "ok" => e.r = <<cur>>),
                 IF want # "ok" THEN s
                 ELSE W(s, (IF e.c = 1 THEN << >> ELSE << <<e.k, Rm>> >>) \o << <<e.k2, cur>> >>))
    [] e.o = "proc" ->
         LET cur == Cur(s, e.k)
         IN Does(e.st = "ok" /\ e.r = Opt(cur),
                 IF e.w = 0 THEN s ELSE W(s, ActW(e.k, IF cur = Absent THEN e.ea ELSE e.fa)))
    [] e.o = "procm" ->
         Does(e.st = "ok" /\ e.r = [i \in DOMAIN e.pl |-> Opt(Cur(s, e.pl[i][1]))],
              IF e.w = 0 THEN s
              ELSE W(s, Cat([i \in DOMAIN e.pl |-> ActW(e.pl[i][1],
                                 IF Cur(s, e.pl[i][1]) = Absent THEN e.pl[i][3] ELSE e.pl[i][2])], 1)))
    [] e.o = "first" ->
         Does(e.st = (IF n = 0 THEN "nf" ELSE "ok") /\ e.r = At(IF n = 0 THEN 0 ELSE 1),
              IF n = 0 \/ e.w = 0 THEN s ELSE W(s, ActW(s.vis[1][1], e.fa)))
    [] e.o = "each" ->
         Does(e.st = "ok" /\ e.r = s.vis /\ e.nb = 2,
              IF e.w = 0 THEN s ELSE W(s, Cat([i \in 1..n |-> ActW(s.vis[i][1], e.as[s.vis[i][1]])], 1)))
    [] e.o = "scan" -> Says(e.r = s.vis)
    \* when built in sorted order, the count is documented by the tests to include the batch
    [] e.o = "count" -> Says(e.r = n + (IF e.io = 1 THEN Len(s.pend) ELSE 0))
    [] e.o = "byidx" -> Says(e.r = At(IF e.i < n THEN e.i + 1 ELSE 0))
    [] e.o = "isupd" -> Says(e.r = B(s.upd))
    [] e.o = "valid" -> Says(e.st = "ok")
    [] e.o = "image" -> Says(e.r = s.vis)
    [] e.o = "log" -> Does(e.r = s.log, [s EXCEPT !.log = << >>])
    [] e.o = "merge" -> Does(e.st = "ok", [s EXCEPT !.mer = @ \o e.recs, !.upd = TRUE])
    [] e.o = "sync" ->
         LET q == Publish(s, e.red) IN Does(e.st = "ok" /\ (e.hc = 1 => e.cp = q.vis), q)
    [] e.o = "reopen" -> Does(e.st = "ok", Publish(s, "none"))
    [] e.o = "rebuild" -> Does(e.st = "ok", Publish(s, "none"))
    [] e.o = "clear" -> Does(e.st = "ok", [Fresh(Len(s.pos)) EXCEPT !.log = s.log \o << <<0, << >>>> >>])
    [] e.o = "revert" -> Does(e.st = "ok", [s EXCEPT !.mer = << >>, !.pend = << >>, !.upd = FALSE])
    [] e.o = "inew" -> Does(TRUE, To({0}))
    [] e.o = "ifirst" -> Does(e.st = "ok", To({IF n = 0 THEN 0 ELSE 1}))
    [] e.o = "ilast" -> Does(e.st = "ok", To({n}))
    [] e.o = "ijump" -> Does(e.st = "ok", To({Least(Keys(LAMBDA k : k >= e.k))}))
    [] e.o = "iupper" -> Does(e.st = "ok", To({Least(Keys(LAMBDA k : k > e.k \/ (e.inc = 1 /\ k = e.k)))}))
    [] e.o = "ilower" ->
         LET eq == Keys(LAMBDA k : k = e.k)
         IN Does(e.st = "ok", To(IF e.inc = 1 /\ eq # {} THEN eq ELSE {Most(Keys(LAMBDA k : k < e.k))}))
    [] e.o = "inext" ->
         LET p == s.pos[e.id]
         IN IF e.st = "ok" THEN Does(p # {0}, To({ IF i = n THEN 0 ELSE i + 1 : i \in p \ {0} }))
            ELSE Does(e.st = "nf" /\ 0 \in p, To({0}))
    [] e.o = "iprev" ->
         LET p == s.pos[e.id]
         IN IF e.st = "ok" THEN Does(p # {0}, To({ i - 1 : i \in p \ {0} }))
            ELSE Does(e.st = "nf" /\ 0 \in p, To({0}))
    [] e.o = "iget" ->
         LET p == { i \in s.pos[e.id] : At(i) = e.r } IN Does(p # {}, To(p))
    [] e.o = "iset" \/ e.o = "irem" ->
         LET p == { i \in s.pos[e.id] : At(i) = e.r }
             stays == IF e.r = << >> THEN s
                      ELSE W(s, << <<e.r[1][1], IF e.o = "irem" THEN Rm ELSE e.v>> >>)
         IN Does(p # {} /\ e.st = (IF e.r = << >> THEN "nf" ELSE "ok"),
                 [stays EXCEPT !.pos[e.id] = IF e.o = "iset" \/ e.r = << >> THEN p
                                             ELSE { IF i = n THEN 0 ELSE i + 1 : i \in p }])
    [] OTHER -> Says(FALSE)

Init == t \in 1..Len(Traces) /\ l = 2 /\ c = Fresh(Traces[t][1].I)
Step == /\ l <= Len(Tr)
        /\ LET a == Apply(c, Tr[l]) IN a.ok /\ c' = a.s
        /\ l' = l + 1
        /\ UNCHANGED t
Done == l > Len(Tr) /\ UNCHANGED vars
Next == Step \/ Done
(* the published records are in key order, and iterators are at records *)
Ordered == l <= Len(Tr) => /\ \A i \in 1..(Len(c.vis) - 1) : c.vis[i][1] <= c.vis[i + 1][1]
                           /\ \A i \in DOMAIN c.pos : c.pos[i] \subseteq 0..Len(c.vis)
===============================================================================
