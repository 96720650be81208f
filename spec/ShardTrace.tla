------------------------------ MODULE ShardTrace ------------------------------
(* A catalog of sharded databases.  files[<<q, m>>] are the contents kept in  *)
(* the m files of the database named q, or None; `cur' is the open database   *)
(* (or Closed); place[<<k, m>>] is the shard that was once seen to hold the   *)
(* key k of a database of m shards: it must be the only one for ever.         *)
(* Records and iterators of the open database follow IterTrace.               *)
EXTENDS IterTrace
VARIABLES files, cur, place
svars == <<t, l, db, it, files, cur, place>>
Names == 1..4
Ms == {1, 2, 3, 5}
None == <<0>>            \* longer or shorter than any real contents is not needed: see Has
Closed == <<0, 0, 0>>
Has(q, m) == files[<<q, m>>] # None
Sets(q) == { m \in Ms : Has(q, m) }

SInit == /\ Init
         /\ files = [x \in Names \X Ms |-> None]
         /\ cur = Closed
         /\ place = [x \in (1..Traces[t][1].K) \X Ms |-> 0]

Detect(q) == IF Sets(q) = {} THEN 0 ELSE IF Cardinality(Sets(q)) > 1 THEN -1 ELSE CHOOSE m \in Sets(q) : TRUE

Open(e) ==
  LET m == IF e.m > 0 THEN e.m ELSE IF Detect(e.q) = 0 THEN 1 ELSE Detect(e.q)
      fail(s) == e.r[1] \in s /\ UNCHANGED <<db, it, files, cur, place>>
  IN IF m = -1 THEN fail({"dup"})
     ELSE IF ~Has(e.q, m) /\ (e.nc = 1 \/ e.w = 0) THEN fail({"nf"})
     ELSE /\ e.r = <<"ok", m>>
          /\ db' = IF Has(e.q, m) /\ e.tr = 0 THEN files[<<e.q, m>>] ELSE Empty(Cfg.K)
          /\ files' = [files EXCEPT ![<<e.q, m>>] = Empty(Cfg.K)]
          /\ cur' = <<e.q, m, e.w>>
          /\ it' = [i \in Its |-> Off]
          /\ UNCHANGED place

Close(e) == /\ e.r = <<"ok">>
            /\ files' = [files EXCEPT ![<<cur[1], cur[2]>>] = db]
            /\ cur' = Closed
            /\ UNCHANGED <<db, it, place>>

Parts(e) ==
  LET d == files[<<e.q, e.m>>]
      inS(k) == { s \in 1..e.m : \E j \in DOMAIN e.r[s] : e.r[s][j][1] = k }
  IN /\ d # None
     /\ Len(e.r) = e.m
     /\ \A s \in 1..e.m : \A j \in DOMAIN e.r[s] :
          LET x == e.r[s][j] IN x[1] \in Present(d) /\ d[x[1]] = x[2]
     /\ \A k \in Present(d) : Cardinality(inS(k)) = 1
     /\ \A k \in Present(d) : place[<<k, e.m>>] = 0 \/ place[<<k, e.m>>] \in inS(k)
     /\ place' = [x \in DOMAIN place |->
                   IF x[2] = e.m /\ x[1] \in Present(d) THEN CHOOSE s \in inS(x[1]) : TRUE ELSE place[x]]
     /\ UNCHANGED <<db, it, files, cur>>

Move2(e, keep) ==
  LET m == Detect(e.q) IN
  IF m = 0 THEN e.r[1] = "nf" /\ UNCHANGED files
  ELSE IF m = -1 THEN e.r[1] = "dup" /\ UNCHANGED files
  ELSE /\ e.r = <<"ok">>
       /\ files' = [files EXCEPT ![<<e.q2, m>>] = files[<<e.q, m>>], ![<<e.q, m>>] = IF keep THEN @ ELSE None]

Catalog(e) ==
  CASE e.o = "nsh" -> /\ e.r = (IF Detect(e.q) = 0 THEN <<"nf", 0>> ELSE IF Detect(e.q) = -1 THEN <<"dup", 0>> ELSE <<"ok", Detect(e.q)>>)
                      /\ UNCHANGED files
    [] e.o = "rename" -> Move2(e, FALSE)
    [] e.o = "restore" -> Move2(e, TRUE)
    [] e.o = "copy" -> cur # Closed /\ e.r = <<"ok">> /\ files' = [files EXCEPT ![<<e.q, cur[2]>>] = db]

Look(e) ==
  CASE e.o = "closed" -> cur = Closed /\ \A j \in DOMAIN e.r : e.r[j] = "pre"
    [] e.o = "opened" -> cur # Closed /\ e.r = <<"pre">>
    [] e.o = "export" -> e.r[1] = "ok" /\ VisitOK(db, e.r[2], FALSE)
    [] e.o = "agg" -> LET c == Cardinality(Present(db)) IN
                      e.r = <<"ok", "ok", c, c, c, 1, 1, cur[3], 1, Cfg.so, 1>>
    [] e.o = "ujump" -> IF db[e.k] = Absent THEN e.r[2] = "nf" ELSE e.r = <<"ok", "ok", e.k, db[e.k]>>

SStep ==
  IF l > Len(Tr) THEN UNCHANGED svars
  ELSE LET e == Tr[l] IN
    IF e.o \in {"open", "close", "parts", "nsh", "rename", "restore", "copy", "closed", "opened", "export", "agg", "ujump"}
    THEN /\ l' = l + 1
         /\ UNCHANGED t
         /\ CASE e.o = "open" -> cur = Closed /\ Open(e)
              [] e.o = "close" -> cur # Closed /\ Close(e)
              [] e.o = "parts" -> Parts(e)
              [] e.o \in {"nsh", "rename", "restore", "copy"} -> Catalog(e) /\ UNCHANGED <<db, it, cur, place>>
              [] OTHER -> Look(e) /\ UNCHANGED <<db, it, files, cur, place>>
    ELSE cur # Closed /\ Step /\ UNCHANGED <<files, cur, place>>
=============================================================================
