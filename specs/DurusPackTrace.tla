--------------------------- MODULE DurusPackTrace ---------------------------
(***************************************************************************)
(* Judges traces of the storage interface (commits, loads, allocation of    *)
(* oids, incremental packs, sync, reopening) of the real storages.          *)
(* A record is <<version, set of referenced oids>>.                         *)
(*   gone   removed oids that sync() has not reported yet                   *)
(*   alloc  oids that were handed out and not used                          *)
(*   garb   while a pack runs: see DurusPack                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, stop, db, packing, garb, gone, alloc
tvars == <<tid, l, stop, db, packing, garb, gone, alloc>>
Ev == Traces[tid].ev
E == Ev[l]
SetOf(s) == {s[i] : i \in DOMAIN s}
DbOf(rows) == [o \in {rows[i][1] : i \in DOMAIN rows} |->
                 LET r == rows[CHOOSE i \in DOMAIN rows : rows[i][1] = o]
                 IN <<r[2], SetOf(r[3])>>]
Restrict(f, S) == [x \in DOMAIN f \cap S |-> f[x]]
\* d = <<rows, oids, all>>: all rows, or those that differ from what was stored at the
\* previous such event (which has been judged), and the oids that are gone
Stored(d) == IF d[3] = 1 THEN DbOf(d[1])
             ELSE DbOf(d[1]) @@ Restrict(db, DOMAIN db \ SetOf(d[2]))
RowsOk(rows) == Cardinality({rows[i][1] : i \in DOMAIN rows}) = Len(rows)
RECURSIVE Reach(_, _, _)
Reach(d, frontier, acc) ==
  LET fr == (frontier \cap DOMAIN d) \ acc IN
  IF fr = {} THEN acc ELSE Reach(d, UNION {d[o][2] : o \in fr}, acc \cup fr)
Reachable(d) == Reach(d, {0}, {})

TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ stop = FALSE
             /\ db = [x \in {} |-> 0] /\ packing = FALSE /\ garb = {} /\ gone = {} /\ alloc = {}

Ok(b, clause) == IF b THEN "" ELSE clause
First(s) == IF \E i \in DOMAIN s : s[i] # ""
            THEN s[CHOOSE i \in DOMAIN s : s[i] # "" /\ \A j \in 1..(i-1) : s[j] = ""] ELSE ""
After(e) == DbOf(e.rows) @@ db

StepClause(e) ==
  LET d == Stored(e.db) IN
  First(<< Ok(e.res = "ok", "pack failed: " \o e.res),
           Ok(RowsOk(e.db[1]), "two records with one oid"),
           Ok(DOMAIN d \subseteq DOMAIN db, "pack added objects"),
           Ok(Reachable(db) \subseteq DOMAIN d, "pack removed a reachable object"),
           Ok(\A o \in DOMAIN d : d[o] = db[o], "pack altered an object"),
           Ok(e.fin = 1 => garb \cap DOMAIN d = {}, "pack left garbage") >>)
Clause(e) ==
  CASE e.op = "ST" -> First(<< Ok(e.res = "ok", "commit failed: " \o e.res),
                               Ok(RowsOk(e.db[1]), "two records with one oid"),
                               Ok(Stored(e.db) = After(e), "wrong records after a commit") >>)
    [] e.op = "SF" -> First(<< Ok(e.res # "ok", "an invalid commit was accepted"),
                               Ok(Stored(e.db) = db, "a failed commit changed the storage") >>)
    [] e.op = "PB" -> Ok(e.res = "ok", "pack did not start: " \o e.res)
    [] e.op = "PS" -> StepClause(e)
    [] e.op = "LD" ->
         CASE e.res = "ok" -> Ok(e.o \in DOMAIN db /\ db[e.o] = <<e.v, SetOf(e.refs)>>, "load() gave a wrong record")
           [] e.res = "none" -> Ok(e.o \notin DOMAIN db, "load() did not find a record")
           [] OTHER -> "load() failed: " \o e.res
    [] e.op = "NEW" -> First(<< Ok(e.res = "ok", "new_oid() failed: " \o e.res),
                                Ok(e.o \notin DOMAIN db, "new_oid() gave an oid in use"),
                                Ok(e.o \notin alloc, "new_oid() gave an oid twice"),
                                Ok(e.o \notin gone, "new_oid() gave an oid whose removal was not reported") >>)
    [] e.op = "SY" -> First(<< Ok(e.res = "ok", "sync() failed: " \o e.res),
                               Ok(gone \subseteq SetOf(e.oids), "sync() did not report a removed object"),
                               Ok(SetOf(e.oids) \cap DOMAIN db = {}, "sync() reported an object that exists") >>)
    [] e.op = "RO" -> First(<< Ok(e.res = "ok", "reopening failed: " \o e.res),
                               Ok(RowsOk(e.db[1]), "two records with one oid"),
                               Ok(Stored(e.db) = db, "reopened storage differs") >>)
    \* a traversal while nothing happens
    [] e.op = "GR" ->
         First(<< Ok(e.res = "ok", "traversal failed: " \o e.res),
                  Ok(RowsOk(e.db), "traversal gave an object twice"),
                  Ok(DbOf(e.db) = [o \in Reach(db, {e.o}, {}) |-> db[o]], "traversal differs from the records") >>)
    [] e.op = "HANG" -> "no answer: " \o e.what
    [] OTHER -> "driver: unknown event"

Apply(e) ==
  CASE e.op = "ST" -> /\ db' = After(e) /\ alloc' = alloc \ DOMAIN DbOf(e.rows)
                      /\ garb' = IF packing THEN garb \ Reach(After(e), {0} \cup DOMAIN DbOf(e.rows), {}) ELSE garb
                      /\ UNCHANGED <<packing, gone>>
    [] e.op = "PB" -> /\ packing' = TRUE /\ garb' = DOMAIN db \ Reachable(db) /\ UNCHANGED <<db, gone, alloc>>
    [] e.op = "PS" -> /\ db' = Stored(e.db) /\ gone' = gone \cup (DOMAIN db \ DOMAIN Stored(e.db))
                      /\ packing' = (e.fin = 0) /\ UNCHANGED <<garb, alloc>>
    [] e.op = "NEW" -> alloc' = alloc \cup {e.o} /\ UNCHANGED <<db, packing, garb, gone>>
    [] e.op = "SY" -> gone' = {} /\ UNCHANGED <<db, packing, garb, alloc>>
    [] e.op = "RO" -> /\ packing' = FALSE /\ garb' = {} /\ gone' = {} /\ alloc' = {} /\ UNCHANGED db
    [] OTHER -> UNCHANGED <<db, packing, garb, gone, alloc>>
TraceStep ==
  /\ ~stop
  /\ IF l > Len(Ev)
     THEN PrintT(<<"DONE", tid, l, "">>) /\ stop' = TRUE /\ UNCHANGED <<tid, l, db, packing, garb, gone, alloc>>
     ELSE LET cl == Clause(E) IN
          IF cl # "" THEN /\ PrintT(<<"BAD", tid, l, cl>>) /\ stop' = TRUE
                          /\ UNCHANGED <<tid, l, db, packing, garb, gone, alloc>>
          ELSE Apply(E) /\ l' = l + 1 /\ UNCHANGED <<tid, stop>>
TraceSpec == TraceInit /\ [][TraceStep]_tvars
=============================================================================
