-------------------------- MODULE DurusServerTrace --------------------------
(* Judges traces of raw protocol clients of the real server, see sv.py.    *)
EXTENDS DurusServer, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
TClients == 0..7
VARIABLES tid, l, stop, gcb
tvars == <<svvars, tid, l, stop, gcb>>
Ev == Traces[tid].ev
E == Ev[l]
SetOf(s) == {s[i] : i \in DOMAIN s}
DbOf(rows) == [o \in {rows[i][1] : i \in DOMAIN rows} |->
                 LET r == rows[CHOOSE i \in DOMAIN rows : rows[i][1] = o] IN <<r[2], SetOf(r[3])>>]
RowsOk(rows) == Cardinality({rows[i][1] : i \in DOMAIN rows}) = Len(rows)
Empty == [x \in {} |-> 0]
TraceInit == /\ tid \in 1..Len(Traces) /\ stop = FALSE /\ gcb = 0
             /\ db = Empty /\ up = {} /\ inval = [c \in Clients |-> {}] /\ alloc = [c \in Clients |-> {}]
             /\ gone = {} /\ packing = "no" /\ lo = 0 /\ hi = 0 /\ l = 1
Ok(b, clause) == IF b THEN "" ELSE clause
First(s) == IF \E i \in DOMAIN s : s[i] # ""
            THEN s[CHOOSE i \in DOMAIN s : s[i] # "" /\ \A j \in 1..(i-1) : s[j] = ""] ELSE ""

ToldOk(c, t) == /\ Told(c) \subseteq SetOf(t)
                /\ \A o \in SetOf(t) \ Told(c) : o \notin DOMAIN db
LoadClause(c, o, res, v) ==
  CASE res = "ok" -> First(<< Ok(o \in DOMAIN db, "a record was returned for an object that does not exist"),
                              Ok(o \notin inval[c], "a load was not refused although the client must be told first"),
                              Ok(o \in DOMAIN db => db[o][1] = v, "wrong record loaded") >>)
    [] res = "inv" -> Ok(o \in Told(c), "a load was refused without a reason")
    [] res = "key" -> Ok(o \notin DOMAIN db, "a stored record was not found")
    [] OTHER -> "load failed: " \o res
Unchanged(e) == Ok(RowsOk(e.db) /\ DbOf(e.db) = db, "the storage was changed")
Applied(e) == DbOf(e.rows) @@ db
CommitClause(e) ==
  LET c == e.c IN
  First(<< Ok(e.seen = 0 \/ ToldOk(c, e.told), "a commit was not told what changed"),
           Ok(RowsOk(e.db), "two records for one oid"),
           CASE e.kind = "ok" -> First(<< Ok(e.res = "ok", "a valid commit failed: " \o e.res),
                                          Ok(DbOf(e.db) = Applied(e), "a commit stored wrong records") >>)
             [] e.kind = "empty" -> First(<< Ok(e.res = "ok", "an empty commit failed: " \o e.res), Unchanged(e) >>)
             [] e.kind = "refused" -> First(<< Ok(e.res = "WC", "a commit that the storage refused: " \o e.res), Unchanged(e) >>)
             [] e.kind = "gone" -> Ok(DbOf(e.db) \in {db, Applied(e)}, "a commit was applied partly")
             [] OTHER -> First(<< Ok(DbOf(e.db) = db, "an invalid commit changed the storage (" \o e.kind \o ")"),
                                  Ok(e.res # "ok", "an invalid commit was accepted (" \o e.kind \o ")"),
                                  Ok(e.res = "closed", "an invalid commit did not end the client (" \o e.kind \o "): " \o e.res) >>) >>)
Clause(e) ==
  CASE e.op = "CF" -> ""
    [] e.op = "CO" -> Ok(e.res = "ok", "connecting failed: " \o e.res)
    [] e.op = "CL" -> Unchanged(e)
    [] e.op = "AL" -> First(<< Ok(e.res = "ok", "allocation failed: " \o e.res),
                               Ok(Len(e.oids) = e.n, "wrong number of oids"),
                               Ok(Cardinality(SetOf(e.oids)) = Len(e.oids), "an oid was handed out twice"),
                               Ok(\A o \in SetOf(e.oids) : Free(o), "an oid was handed out that is in use") >>)
    [] e.op = "LD" -> LoadClause(e.c, e.o, e.res, e.v)
    [] e.op = "BL" -> IF e.res = "ok"
                      THEN First(<< Ok(Len(e.items) = Len(e.oids), "bulk load returned a wrong number of records"),
                                    First([i \in DOMAIN e.items |->
                                             LoadClause(e.c, e.oids[i], e.items[i][1], e.items[i][2])]) >>)
                      ELSE CASE e.res = "inv" -> Ok(SetOf(e.oids) \cap Told(e.c) # {}, "a bulk load was refused without a reason")
                             [] e.res = "key" -> Ok(~ (SetOf(e.oids) \subseteq DOMAIN db), "bulk load did not find a stored record")
                             [] OTHER -> "bulk load failed: " \o e.res
    [] e.op = "SY" -> First(<< Ok(e.res = "ok", "sync failed: " \o e.res),
                               Ok(ToldOk(e.c, e.told), "sync did not tell what changed") >>)
    [] e.op = "CM" -> CommitClause(e)
    [] e.op = "BAD" -> First(<< Ok(e.res = "closed", "a bad request did not end the client: " \o e.res), Unchanged(e) >>)
    [] e.op = "P" -> First(<< Ok(e.res = "ok", "pack request failed: " \o e.res), Unchanged(e) >>)
    [] e.op = "GC" ->
         IF packing # "no" THEN Ok(e.active = 1, "a pack ended without having been run")
         ELSE IF e.active = 1 THEN Ok(gcb > 0 /\ hi >= gcb, "a pack started too early")
         ELSE Ok(~(gcb > 0 /\ lo >= gcb), "no pack started although enough was committed")
    [] e.op = "PS" -> First(<< Ok(e.res = "ok", "pack failed: " \o e.res),
                               Ok(RowsOk(e.db), "two records for one oid"),
                               Ok(Reachable(db) \subseteq DOMAIN DbOf(e.db), "a pack removed a reachable object"),
                               Ok(DOMAIN DbOf(e.db) \subseteq DOMAIN db, "a pack added objects"),
                               Ok(\A o \in DOMAIN DbOf(e.db) : DbOf(e.db)[o] = db[o], "a pack altered an object") >>)
    [] e.op = "IDLE" -> Ok(e.done = 1, "a pack did not finish while the server was idle")
    [] e.op = "SAME" -> Unchanged(e)
    [] e.op = "HANG" -> "no answer: " \o e.what
    [] OTHER -> "driver: unknown event " \o e.op

Apply(e) ==
  CASE e.op = "CF" -> gcb' = e.gcb /\ db' = DbOf(e.db) /\ UNCHANGED <<up, inval, alloc, gone, packing, lo, hi>>
    [] e.op = "CO" -> Connect(e.c) /\ UNCHANGED gcb
    [] e.op = "CL" -> RefusedDrop(e.c, FALSE) /\ UNCHANGED gcb
    [] e.op = "AL" -> Alloc(e.c, SetOf(e.oids)) /\ UNCHANGED gcb
    [] e.op = "SY" -> Sync(e.c) /\ UNCHANGED gcb
    [] e.op = "CM" ->
         /\ UNCHANGED gcb
         /\ CASE e.kind = "ok" -> Commit(e.c, DbOf(e.rows), <<e.lo, e.hi>>)
              [] e.kind \in {"empty", "refused"} -> Sync(e.c)
              [] e.kind = "gone" /\ DbOf(e.db) # db -> CommitDrop(e.c, DbOf(e.rows), <<e.lo, e.hi>>)
              [] OTHER -> RefusedDrop(e.c, TRUE)
    [] e.op = "BAD" -> RefusedDrop(e.c, e.synced = 1) /\ UNCHANGED gcb
    [] e.op = "P" -> (IF packing = "no" THEN StartPack("client") ELSE UNCHANGED svvars) /\ UNCHANGED gcb
    [] e.op = "GC" -> (IF packing = "no" /\ e.active = 1 THEN StartPack("auto") ELSE UNCHANGED svvars) /\ UNCHANGED gcb
    [] e.op = "PS" -> /\ UNCHANGED gcb
                      /\ IF e.fin = 1 /\ packing # "no" THEN FinishPack(DbOf(e.db))
                         ELSE PackEffect(DbOf(e.db)) /\ UNCHANGED <<up, inval, alloc, packing, lo, hi>>
    [] OTHER -> UNCHANGED svvars /\ UNCHANGED gcb
TraceStep ==
  /\ ~stop
  /\ IF l > Len(Ev)
     THEN PrintT(<<"DONE", tid, l, "">>) /\ stop' = TRUE /\ UNCHANGED <<svvars, tid, l, gcb>>
     ELSE LET cl == Clause(E) IN
          IF cl # "" THEN /\ PrintT(<<"BAD", tid, l, cl>>) /\ stop' = TRUE /\ UNCHANGED <<svvars, tid, l, gcb>>
          ELSE Apply(E) /\ l' = l + 1 /\ UNCHANGED <<tid, stop>>
TraceSpec == TraceInit /\ [][TraceStep]_tvars
=============================================================================
