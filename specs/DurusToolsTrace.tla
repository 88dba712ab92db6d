-------------------------- MODULE DurusToolsTrace --------------------------
(***************************************************************************)
(* Judges the tools (tl.py).  Every event that may change the database has  *)
(* all records afterwards, <<oid, class, value, refs, refs listed in the    *)
(* record, words>>.                                                         *)
(*   db  the records;  word  the words that each record mentions;           *)
(*   pend  the objects changed and not committed                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, stop, db, word, pend
lvars == <<db, word, pend>>
tvars == <<tid, l, stop, lvars>>
Ev == Traces[tid].ev
E == Ev[l]
T == INSTANCE DurusTools WITH Ids <- {}, Classes <- {}, MarkRoot <- TRUE, TouchAll <- TRUE, NextAfterMax <- TRUE,
       Jobs <- {}, src <- 0, job <- 0, todo <- 0, memo <- 0, out <- 0, next <- 0
Set(q) == {q[i] : i \in DOMAIN q}
None == [x \in {} |-> 0]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ stop = FALSE /\ db = None /\ word = None /\ pend = {}
Ok(b, clause) == IF b THEN "" ELSE clause
First(q) == IF \E i \in DOMAIN q : q[i] # ""
            THEN q[CHOOSE i \in DOMAIN q : q[i] # "" /\ \A j \in 1..(i-1) : q[j] = ""] ELSE ""
Row(rows, o) == rows[CHOOSE i \in DOMAIN rows : rows[i][1] = o]
Oids(rows) == {rows[i][1] : i \in DOMAIN rows}
Db(rows) == [o \in Oids(rows) |-> LET r == Row(rows, o) IN [cls |-> r[2], val |-> r[3], refs |-> r[4]]]
Words(rows) == [o \in Oids(rows) |-> Set(Row(rows, o)[6])]
HasDb(e) == "db" \in DOMAIN e
Good(e) == IF ~HasDb(e) THEN "" ELSE
  LET d == Db(e.db) IN
  First(<<Ok(Cardinality(Oids(e.db)) = Len(e.db), "two records with one oid"),
          Ok(T!Closed(d), "a reference leads nowhere or names another class"),
          Ok(\A i \in DOMAIN e.db : Set(e.db[i][5]) = T!Refs(d, e.db[i][1]), "wrong list of references in a record")>>)
\* the records that a storage enumerates
U(e) == IF e.u = "reach" THEN T!Restrict(db, T!Reachable(db)) ELSE db
Once(q) == Cardinality(Set(q)) = Len(q)
Ren(e) == LET all == {db[o].cls : o \in DOMAIN db} \cup UNION {{r[2] : r \in Set(db[o].refs)} : o \in DOMAIN db}
          IN [c \in all |-> IF \E i \in DOMAIN e.ren : e.ren[i][1] = c
                            THEN (e.ren[CHOOSE i \in DOMAIN e.ren : e.ren[i][1] = c])[2] ELSE c]
\* one object changed, one added
UsedClause(e, d) ==
  First(<<Ok(e.o \in DOMAIN db => d[e.o].cls = db[e.o].cls, "wrong class after a change"),
          Ok(e.new \notin DOMAIN db, "a new object got an oid in use"),
          Ok(DOMAIN d = DOMAIN db \cup {e.new}, "wrong objects after a change"),
          Ok(\A x \in DOMAIN db \ {e.o} : d[x] = db[x], "an object changed that was not touched"),
          Ok(e.new \in T!Targets(d, e.o), "a change was lost"),
          Ok(T!Targets(db, e.o) \subseteq T!Targets(d, e.o), "a reference was lost")>>)
Clause1(e) ==
  IF e.op = "ERR" THEN "driver: " \o e.what ELSE
  IF e.op = "HANG" THEN "no answer: " \o e.what ELSE
  IF e.op \in {"BULKMISS", "NOTPACKED"} THEN First(<<Ok(e.res = "ok", e.op \o ": " \o e.res), Good(e)>>) ELSE
  IF e.res # "ok" THEN e.op \o " failed: " \o e.res ELSE
  IF Good(e) # "" THEN e.op \o ": " \o Good(e) ELSE
  LET d == IF HasDb(e) THEN Db(e.db) ELSE db IN
  CASE e.op = "DB" -> ""
    [] e.op = "SAME" -> Ok(d = db, e.what \o " changed the database")
    [] e.op = "COPY" -> First(<<Ok(d = IF e.reach = 1 THEN T!Restrict(db, T!Reachable(db)) ELSE db, "copy: the records differ"),
                                Ok(\A o \in DOMAIN d : o < e.next, "copy: new_oid() gives an oid in use")>>)
    [] e.op = "RENUM" -> First(<<Ok(d[0].cls = db[0].cls, "renumber: another class of the root"),
                                 Ok(T!Same(db, d), "renumber: the graph differs"),
                                 Ok(T!Minimal(d), "renumber: the oids have gaps")>>)
    [] e.op = "PACK" -> Ok(d = T!Restrict(db, T!Reachable(db)), "pack: not exactly the reachable objects remain")
    [] e.op = "CONV" -> Ok(d = T!Restrict(db, T!Reachable(db)), "conversion: the graph differs")
    [] e.op = "RENAME" -> Ok(d = T!Renamed(db, Ren(e)), "rename: an old name remains or something else changed")
    [] e.op = "USE" -> UsedClause(e, d)
    [] e.op = "DETECT" -> Ok(e.out = e.want, "wrong storage class for a file: " \o e.out)
    [] e.op = "TEXT" -> Ok(e.out = e.want, e.what \o ": " \o e.out)
    \* inspection
    [] e.op = "ALL" -> Ok(Once(e.out) /\ Set(e.out) = DOMAIN U(e), "gen_oid_record() gives wrong oids")
    [] e.op = "CENSUS" -> LET c == T!Census(U(e)) IN
         Ok(Set(e.out) = {<<x, c[x]>> : x \in DOMAIN c} /\ Once(e.out), "wrong census")
    [] e.op = "CLASSES" -> Ok(Once(e.out) /\ Set(e.out) = {<<o, db[o].cls>> : o \in
              {o \in DOMAIN U(e) : Len(e.names) = 0 \/ db[o].cls \in Set(e.names)}}, "gen_oid_class() is wrong")
    [] e.op = "REFER" -> Ok(Once(e.out) /\ Set(e.out) = T!Referring(U(e), e.o), "gen_referring_oid_record() is wrong")
    [] e.op = "INDEX" -> LET f == T!RefIndex(U(e)) IN
         Ok(Len(e.out) = Cardinality(DOMAIN f) /\ \A i \in DOMAIN e.out :
              e.out[i][1] \in DOMAIN f /\ Set(e.out[i][2]) = f[e.out[i][1]] /\ Once(e.out[i][2]), "wrong reference index")
    [] e.op = "INST" -> First(<<Ok(Once(e.out) /\ Set(e.out) = T!Instances(U(e), Set(e.match)), "gen_every_instance() gives the wrong objects"),
                                Ok(e.same = 1, "gen_every_instance() gives strange objects")>>)
    [] e.op = "TOUCH" -> Ok(Set(e.out) = pend \cup {o \in DOMAIN U(e) : word[o] \cap Set(e.words) # {}},
                            "touch_every_reference() marks the wrong objects")
    [] e.op = "CRAWL" -> First(<<Ok(Once(e.out), "the crawler gives an object twice"),
                                 Ok(Set(e.out) = T!Reach(db, {e.o}, {}), "the crawler gives the wrong objects"),
                                 Ok(e.same = 1, "the crawler gives strange objects")>>)
    [] e.op = "FROM" -> Ok(Once(e.out) /\ Set(e.out) = T!Reach(db, {e.o}, {}), "gen_oid_record(oid) gives the wrong objects")
    [] e.op = "BULK" -> Ok(e.out = e.oids, "bulk_load() gives the wrong records")
    [] e.op = "NOTE" -> ""
    [] OTHER -> "driver: unknown event " \o e.op
Apply(e) ==
  /\ db' = IF HasDb(e) THEN Db(e.db) ELSE db
  /\ word' = IF HasDb(e) THEN Words(e.db) ELSE word
  /\ pend' = CASE e.op = "NOTE" -> pend \cup {e.o}
               [] e.op = "TOUCH" -> Set(e.out)
               [] HasDb(e) -> {}
               [] OTHER -> pend
TraceStep ==
  /\ ~stop
  /\ IF l > Len(Ev)
     THEN PrintT(<<"DONE", tid, l, "">>) /\ stop' = TRUE /\ UNCHANGED <<tid, l, lvars>>
     ELSE LET cl == Clause1(E) IN
          IF cl # "" THEN PrintT(<<"BAD", tid, l, cl>>) /\ stop' = TRUE /\ UNCHANGED <<tid, l, lvars>>
          ELSE Apply(E) /\ l' = l + 1 /\ UNCHANGED <<tid, stop>>
TraceSpec == TraceInit /\ [][TraceStep]_tvars
=============================================================================
