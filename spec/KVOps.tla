------------------------------- MODULE KVOps -------------------------------
(* The ideal key-value map.  A database is a function from the ranks 1..K  *)
(* of the keys in play (ranks follow the configured key order) to values;  *)
(* a value is a sequence of integer tokens, and Absent means no record.    *)
(* Apply(db, e, cfg) gives, for an operation record e, the next database,  *)
(* the result that the operation must return and the list of effective     *)
(* changes it publishes (what an update log must contain).                 *)
(* Operations that may legally choose (which record is "first" in an       *)
(* unordered database) take the choice from the recorded result e.r and    *)
(* the constraint is checked: `ok' is FALSE if the choice was not legal.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Absent == <<-7>>
AnyVal == <<-8>>
IntBase == 2000000

Present(db) == { k \in DOMAIN db : db[k] # Absent }
RECURSIVE AscSeq(_, _, _)
AscSeq(db, i, n) == IF i > n THEN << >>
                    ELSE IF db[i] = Absent THEN AscSeq(db, i + 1, n)
                    ELSE << <<i, db[i]>> >> \o AscSeq(db, i + 1, n)
Records(db) == AscSeq(db, 1, Len(db))
MinKey(db) == CHOOSE k \in Present(db) : \A j \in Present(db) : k <= j
Range(s) == { s[i] : i \in DOMAIN s }

(* An action is <<0,_>> (keep), <<1,_>> (remove) or <<2,v>> (store v). *)
ActVal(old, a) == IF a[1] = 0 THEN old ELSE IF a[1] = 1 THEN Absent ELSE a[2]
ActLog(k, old, a) ==
  IF a[1] = 2 THEN << <<k, a[2]>> >>
  ELSE IF a[1] = 1 /\ old # Absent THEN << <<k, Absent>> >> ELSE << >>

R(d, r, l) == [ok |-> TRUE, db |-> d, r |-> r, log |-> l]

Set1(db, k, v, w) ==
  IF db[k] # Absent /\ ~w THEN R(db, <<"dup", db[k]>>, << >>)
  ELSE R([db EXCEPT ![k] = v], <<"ok", db[k]>>, << <<k, v>> >>)

Rem1(db, k) ==
  IF db[k] = Absent THEN R(db, <<"nf", Absent>>, << >>)
  ELSE R([db EXCEPT ![k] = Absent], <<"ok", db[k]>>, << <<k, Absent>> >>)

AppVal(old, v, d) == IF old = Absent THEN v ELSE old \o d \o v
App1(db, k, v, d) ==
  LET nv == AppVal(db[k], v, d) IN R([db EXCEPT ![k] = nv], <<"ok">>, << <<k, nv>> >>)

Matches(cur, e) == IF e = Absent THEN cur = Absent
                   ELSE IF e = AnyVal THEN cur # Absent ELSE cur = e
Store1(db, k, d) ==     \* store, remove or keep
  IF d = AnyVal THEN R(db, << >>, << >>)
  ELSE IF d = Absent THEN
    (IF db[k] = Absent THEN R(db, << >>, << >>)
     ELSE R([db EXCEPT ![k] = Absent], << >>, << <<k, Absent>> >>))
  ELSE R([db EXCEPT ![k] = d], << >>, << <<k, d>> >>)

CmpX(db, k, e, d) ==
  IF ~Matches(db[k], e) THEN R(db, <<"infs", db[k]>>, << >>)
  ELSE LET s == Store1(db, k, d) IN R(s.db, <<"ok", db[k]>>, s.log)

Incr(db, k, n, i, readonly) ==
  LET cur == IF db[k] = Absent THEN i ELSE db[k][1] - IntBase
      nv  == << IntBase + cur + n >>
  IN IF readonly THEN R(db, <<"ok", cur>>, << >>)
     ELSE R([db EXCEPT ![k] = nv], <<"ok", cur + n>>, << <<k, nv>> >>)

RECURSIVE SetM(_, _, _, _, _, _)
SetM(db, kvs, i, w, st, lg) ==
  IF i > Len(kvs) THEN R(db, <<st>>, lg)
  ELSE LET s == Set1(db, kvs[i][1], kvs[i][2], w)
       IN SetM(s.db, kvs, i + 1, w, IF s.r[1] = "dup" THEN "dup" ELSE st, lg \o s.log)
RECURSIVE RemM(_, _, _, _, _)
RemM(db, ks, i, st, lg) ==
  IF i > Len(ks) THEN R(db, <<st>>, lg)
  ELSE LET s == Rem1(db, ks[i])
       IN RemM(s.db, ks, i + 1, IF s.r[1] = "nf" THEN "nf" ELSE st, lg \o s.log)
RECURSIVE AppM(_, _, _, _, _)
AppM(db, kvs, i, d, lg) ==
  IF i > Len(kvs) THEN R(db, <<"ok">>, lg)
  ELSE LET s == App1(db, kvs[i][1], kvs[i][2], d) IN AppM(s.db, kvs, i + 1, d, lg \o s.log)
RECURSIVE StoreM(_, _, _, _)
StoreM(db, ds, i, lg) ==
  IF i > Len(ds) THEN R(db, <<"ok">>, lg)
  ELSE LET s == Store1(db, ds[i][1], ds[i][2]) IN StoreM(s.db, ds, i + 1, lg \o s.log)
CxM(db, es, ds) ==
  IF \E i \in DOMAIN es : ~Matches(db[es[i][1]], es[i][2])
  THEN R(db, <<"infs">>, << >>) ELSE StoreM(db, ds, 1, << >>)

GetM(db, ks) ==
  LET S == SelectSeq(ks, LAMBDA k : db[k] # Absent)
  IN R(db, << IF Len(S) < Len(ks) THEN "nf" ELSE "ok", [i \in DOMAIN S |-> <<S[i], db[S[i]]>>] >>, << >>)

Rekey(db, k, k2, w, c) ==
  IF db[k] = Absent THEN R(db, <<"nf", Absent>>, << >>)
  ELSE IF ~w /\ db[k2] # Absent THEN R(db, <<"dup", Absent>>, << >>)
  ELSE LET v  == db[k]
           d1 == IF c THEN db ELSE [db EXCEPT ![k] = Absent]
       IN R([d1 EXCEPT ![k2] = v], <<"ok", v>>,
            (IF c THEN << >> ELSE << <<k, Absent>> >>) \o << <<k2, v>> >>)

RECURSIVE ProcM(_, _, _, _, _, _)
ProcM(db, pl, i, w, seen, lg) ==
  IF i > Len(pl) THEN R(db, <<"ok", seen, Len(pl), 0>>, lg)
  ELSE LET k == pl[i][1]
           a == IF ~w THEN <<0, << >>>> ELSE IF db[k] = Absent THEN pl[i][3] ELSE pl[i][2]
       IN ProcM([db EXCEPT ![k] = ActVal(@, a)], pl, i + 1, w, Append(seen, db[k]),
                lg \o ActLog(k, db[k], a))

(* The order of a complete visit: ascending if ordered, else any order. *)
VisitOK(db, list, ordered) ==
  IF ordered THEN list = Records(db)
  ELSE /\ Len(list) = Cardinality(Present(db))
       /\ Range(list) = { <<k, db[k]>> : k \in Present(db) }
FirstOK(db, k, ordered) ==
  k \in Present(db) /\ (ordered => k = MinKey(db))

(* cfg: fo/eo/so = is the first / the each-visit / the scan ordered. *)
Apply(db, e, cfg) ==
  CASE e.o = "get"   -> R(db, IF db[e.k] = Absent THEN <<"nf", Absent>> ELSE <<"ok", db[e.k]>>, << >>)
    [] e.o = "getsz" -> R(db, IF db[e.k] = Absent THEN <<"nf">> ELSE <<"ok">>, << >>)
    [] e.o = "set"   -> Set1(db, e.k, e.v, e.w = 1)
    [] e.o = "rem"   -> Rem1(db, e.k)
    [] e.o = "app"   -> App1(db, e.k, e.v, e.d)
    [] e.o = "cmpx"  -> CmpX(db, e.k, e.e, e.d)
    [] e.o = "incr"  -> Incr(db, e.k, e.n, e.i, e.c = 1)
    [] e.o = "getm"  -> GetM(db, e.ks)
    [] e.o = "setm"  -> SetM(db, e.kvs, 1, e.w = 1, "ok", << >>)
    [] e.o = "remm"  -> RemM(db, e.ks, 1, "ok", << >>)
    [] e.o = "appm"  -> AppM(db, e.kvs, 1, e.d, << >>)
    [] e.o = "cxm"   -> CxM(db, e.es, e.ds)
    [] e.o = "rekey" -> Rekey(db, e.k, e.k2, e.w = 1, e.c = 1)
    [] e.o = "proc"  -> LET a == IF e.w = 0 THEN <<0, << >>>> ELSE IF db[e.k] = Absent THEN e.ea ELSE e.fa
                        IN R([db EXCEPT ![e.k] = ActVal(@, a)], <<"ok", db[e.k], 1, 0>>, ActLog(e.k, db[e.k], a))
    [] e.o = "procm" -> ProcM(db, e.pl, 1, e.w = 1, << >>, << >>)
    [] e.o = "popfirst" ->
         IF Present(db) = {} THEN R(db, <<"nf", 0, Absent>>, << >>)
         ELSE LET k == e.r[2] IN
              IF ~FirstOK(db, k, cfg.fo = 1) THEN [ok |-> FALSE, db |-> db, r |-> << >>, log |-> << >>]
              ELSE R([db EXCEPT ![k] = Absent], <<"ok", k, db[k]>>, << <<k, Absent>> >>)
    [] e.o = "procfirst" ->
         IF Present(db) = {} THEN R(db, <<"nf", 0, Absent>>, << >>)
         ELSE LET k == e.r[2] IN
              IF ~FirstOK(db, k, cfg.fo = 1) THEN [ok |-> FALSE, db |-> db, r |-> << >>, log |-> << >>]
              ELSE LET a == IF e.w = 0 THEN <<0, << >>>> ELSE e.fa
                   IN R([db EXCEPT ![k] = ActVal(@, a)], <<"ok", k, db[k]>>, ActLog(k, db[k], a))
    [] e.o = "proceach" ->
         LET list == e.r[2]
             good == VisitOK(db, list, cfg.eo = 1)
         IN [ok |-> good,
             db |-> IF e.w = 0 THEN db
                    ELSE [k \in DOMAIN db |-> IF db[k] = Absent THEN Absent ELSE ActVal(db[k], e.as[k])],
             r  |-> <<"ok", list, 2, 1>>,
             log |-> << >>]
    [] e.o = "scan" -> [ok |-> VisitOK(db, e.r[2], cfg.so = 1), db |-> db, r |-> <<"ok", e.r[2]>>, log |-> << >>]
    [] e.o = "push" ->      \* appends at the first free position from the requested one
         LET free == { j \in e.k..Len(db) : db[j] = Absent }
             k    == CHOOSE j \in free : \A x \in free : j <= x
         IN IF free = {} THEN [ok |-> FALSE, db |-> db, r |-> << >>, log |-> << >>]
            ELSE R([db EXCEPT ![k] = e.v], <<"ok", k>>, << <<k, e.v>> >>)
    [] e.o = "count" -> R(db, <<"ok", Cardinality(Present(db))>>, << >>)
    [] e.o = "clear" -> R([k \in DOMAIN db |-> Absent], <<"ok">>, << <<0, Absent>> >>)
    [] OTHER -> [ok |-> FALSE, db |-> db, r |-> << >>, log |-> << >>]

ResultOK(a, e) == a.ok /\ Len(e.r) <= Len(a.r) /\ SubSeq(a.r, 1, Len(e.r)) = e.r

KVNames == {"get","getsz","set","rem","app","cmpx","incr","getm","setm","remm","appm","cxm","rekey",
            "proc","procm","popfirst","procfirst","proceach","scan","push","count","clear"}

(* Replaying published changes. *)
RECURSIVE Replay(_, _, _)
Replay(db, lg, i) ==
  IF i > Len(lg) THEN db
  ELSE Replay(IF lg[i][1] = 0 THEN [k \in DOMAIN db |-> Absent] ELSE [db EXCEPT ![lg[i][1]] = lg[i][2]], lg, i + 1)
Empty(n) == [k \in 1..n |-> Absent]
=============================================================================
