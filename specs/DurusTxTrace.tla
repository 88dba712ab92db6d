---------------------------- MODULE DurusTxTrace ----------------------------
(***************************************************************************)
(* Judges traces recorded from the real code against DurusTx.  A trace is a *)
(* sequence of events; every event is matched with actions of DurusTx.  The *)
(* judgement is total: a trace ends with <<"DONE", tid, length, "">> or     *)
(* with <<"BAD", tid, position, clause>>.                                   *)
(*                                                                         *)
(* Additional variables:                                                   *)
(*   synced[c] the operation of c that is going on brought c up to date    *)
(*   pend[c]   ... although c had used obsolete states: it must be refused *)
(*   comp[c]   oids of computed attributes that hold a value               *)
(*   garb      while a pack runs: what has been unreachable since its start*)
(*   packing   a pack is running                                           *)
(***************************************************************************)
EXTENDS DurusTx, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
MaxClient == 4
TClients == 1..MaxClient
BadValue == -7      \* a plain value that cannot be stored

VARIABLES tid, l, synced, pend, comp, garb, packing, stop
tvars == <<txvars, tid, l, synced, pend, comp, garb, packing, stop>>

Ev == Traces[tid].ev
Last == Len(Ev)
E == Ev[l]

SetOf(seq) == {seq[i] : i \in DOMAIN seq}
\* rows <<oid, <<class, v, a, b>>, refs>>
RowsDb(rows) == [o \in {rows[i][1] : i \in DOMAIN rows} |->
                   rows[CHOOSE i \in DOMAIN rows : rows[i][1] = o][2]]
\* d = <<rows, oids, all>>: what is stored is given by all its rows, or by those that
\* differ from what was stored at the previous such event (which has been judged) and
\* the oids that are gone
DbOf(d) == IF d[3] = 1 THEN RowsDb(d[1])
           ELSE RowsDb(d[1]) @@ Restrict(db, DOMAIN db \ SetOf(d[2]))
RowsOk(d) == Cardinality({d[1][i][1] : i \in DOMAIN d[1]}) = Len(d[1])
RefsOk(d) == \A i \in DOMAIN d[1] : SetOf(d[1][i][3]) = Refs(d[1][i][2]) \ {d[1][i][1]}
MapOf(pairs) == [n \in {pairs[i][1] : i \in DOMAIN pairs} |->
                   pairs[CHOOSE i \in DOMAIN pairs : pairs[i][1] = n][2]]

TraceInit ==
  /\ tid \in 1..Len(Traces) /\ stop = FALSE
  /\ LET first == Traces[tid].ev[1] IN
     IF first.op = "INIT" THEN l = 2 /\ db = RowsDb(first.db[1]) ELSE l = 1 /\ db = EmptyFn
  /\ snap = [c \in Clients |-> EmptyFn] /\ inval = [c \in Clients |-> {}]
  /\ acc = [c \in Clients |-> {}] /\ loc = [c \in Clients |-> EmptyFn]
  /\ new = [c \in Clients |-> EmptyFn] /\ mode = [c \in Clients |-> "off"]
  /\ synced = [c \in Clients |-> FALSE] /\ pend = [c \in Clients |-> FALSE]
  /\ comp = [c \in Clients |-> {}] /\ garb = {} /\ packing = FALSE

-----------------------------------------------------------------------------
Ok(b, clause) == IF b THEN "" ELSE clause
First(s) == IF \E i \in DOMAIN s : s[i] # ""
            THEN s[CHOOSE i \in DOMAIN s : s[i] # "" /\ \A j \in 1..(i-1) : s[j] = ""]
            ELSE ""

\* may an access of o by c be refused?
MayRefuse(c, o) == \/ pend[c] \/ Conflict(c) \/ o \notin DOMAIN db
                   \/ synced[c] /\ o \in inval[c]
IsLocal(c, o, st) == Knows(c, o) /\ Cur(c, o) = st
Put(st, e) == [st EXCEPT ![e.f] = e.x]
IsLocalW(c, e) == Knows(c, e.o) /\ Put(Cur(c, e.o), e) = e.st
IsMovedW(c, e) == /\ e.o \in inval[c] /\ e.o \notin DOMAIN loc[c] /\ ~Conflict(c)
                  /\ e.o \in DOMAIN db /\ Put(db[e.o], e) = e.st
IsMoved(c, o, st) == /\ o \in inval[c] /\ o \notin DOMAIN loc[c] /\ ~Conflict(c)
                     /\ o \in DOMAIN db /\ db[o] = st

AccessClause(c, o, res, local, moved) ==
  CASE mode[c] # "ok" -> "driver: access in mode " \o mode[c]
    [] res = "RC" -> Ok(MayRefuse(c, o), "spurious ReadConflictError")
    [] res = "ok" /\ pend[c] -> "no conflict although obsolete states were used"
    [] res = "ok" /\ (local \/ moved) -> ""
    [] res = "ok" /\ ~Knows(c, o) -> "read an object that does not exist in this view"
    [] res = "ok" /\ o \in DOMAIN loc[c] -> "wrong state of an object changed in this transaction"
    [] res = "ok" /\ o \in inval[c] -> "wrong state of an object changed by others"
    [] res = "ok" -> "wrong state of an unchanged object"
    [] OTHER -> "access failed: " \o res

CommitClause(e) ==
  LET c == e.c
      m == MapOf(e.m)
      dirty == Changed(c) # {}
      reached == NewReached(c)
      bad == \/ \E o \in Changed(c) : loc[c][o][2] = BadValue
             \/ \E n \in reached : new[c][n][2] = BadValue
  IN CASE mode[c] # "ok" -> "driver: commit in mode " \o mode[c]
       [] ~RowsOk(e.db) -> "two records with the same oid"
       [] e.res = "ok" /\ ~dirty ->
            First(<< Ok(DbOf(e.db) = db, "an empty commit changed the database"),
                     Ok(e.m = <<>>, "an empty commit stored new objects") >>)
       [] e.res = "ok" ->
            First(<< Ok(~Conflict(c), "lost update: obsolete states were used"),
                     Ok(~bad, "a value that cannot be stored was committed"),
                     Ok(e.fail = 0, "commit succeeded although the storage failed"),
                     Ok(DOMAIN m = reached, "wrong set of new objects stored"),
                     Ok(FreshFor(c, m), "oid of a new object is not fresh"),
                     Ok(DOMAIN DbOf(e.db) = DOMAIN DbAfter(c, m), "commit changed the set of stored objects wrongly"),
                     Ok(DbOf(e.db) = DbAfter(c, m), "wrong states stored by commit"),
                     Ok(RefsOk(e.db), "wrong references in a stored record") >>)
       [] e.res = "WC" ->
            First(<< Ok(dirty /\ (Conflict(c) \/ e.fail = 2), "spurious WriteConflictError"),
                     Ok(DbOf(e.db) = db, "a refused commit changed the database"),
                     Ok(e.st = <<>>, "new objects of a refused commit kept their oids") >>)
       [] OTHER ->
            First(<< Ok(dirty /\ (bad \/ e.fail = 1), "commit failed: " \o e.res),
                     Ok(DbOf(e.db) = db, "a failed commit changed the database"),
                     Ok(e.st = <<>>, "new objects of a failed commit kept their oids") >>)

PackClause(e) ==
  LET d == DbOf(e.db) IN
  First(<< Ok(e.res = "ok", "pack failed: " \o e.res),
           Ok(\A o \in Reachable(db) : o \in DOMAIN d, "pack removed a reachable object"),
           Ok(DOMAIN d \subseteq DOMAIN db, "pack added objects"),
           Ok(\A o \in DOMAIN d : d[o] = db[o], "pack altered an object"),
           Ok(RowsOk(e.db) /\ RefsOk(e.db), "pack altered records"),
           Ok(e.fin = 1 => garb \cap DOMAIN d = {}, "pack left garbage") >>)

Clause(e) ==
  CASE e.op = "J" -> Ok(e.res = "ok" /\ mode[e.c] = "off", "connecting failed: " \o e.res)
    [] e.op = "X" -> ""
    [] e.op = "SY" -> ""
    [] e.op = "CT" -> ""
    [] e.op = "R" -> AccessClause(e.c, e.o, e.res, IsLocal(e.c, e.o, e.st), IsMoved(e.c, e.o, e.st))
    [] e.op = "W" -> AccessClause(e.c, e.o, e.res, IsLocalW(e.c, e), IsMovedW(e.c, e))
    [] e.op = "RN" -> Ok(e.res = "ok" /\ new[e.c][e.n] = e.st, "wrong state of a new object")
    [] e.op = "N" -> Ok(e.n \notin DOMAIN new[e.c], "driver: new object")
    [] e.op = "NF" -> ""
    [] e.op = "NW" -> Ok(e.res = "ok", "writing a new object failed")
    [] e.op = "C" -> CommitClause(e)
    [] e.op = "A" -> First(<< Ok(e.res = "ok", "abort failed: " \o e.res),
                              Ok(DbOf(e.db) = db, "abort changed the database") >>)
    [] e.op = "GET" ->
         CASE e.res = "RC" -> Ok(MayRefuse(e.c, e.o), "spurious ReadConflictError")
           [] e.res = "none" -> Ok(e.o \notin DOMAIN db, "get() found nothing")
           [] e.res = "ok" -> Ok(~pend[e.c], "no conflict although obsolete states were used")
           [] OTHER -> "get() failed: " \o e.res
    [] e.op = "ID" -> Ok(e.same = 1, "two instances for one oid")
    [] e.op = "CG" ->
         IF e.res = "ok" /\ e.n > 1 THEN "computed attribute computed twice at once"
         ELSE IF e.res = "ok" /\ e.n = 1 /\ e.o \in comp[e.c]
              THEN "computed attribute recomputed although nothing changed"
         ELSE IF e.res = "ok" /\ Knows(e.c, e.dep) /\ e.v # Cur(e.c, e.dep)[2]
              THEN "obsolete value of a computed attribute"
         ELSE IF e.res = "ok" /\ pend[e.c] THEN "no conflict although obsolete states were used"
         ELSE IF e.res = "RC" THEN Ok(MayRefuse(e.c, e.o) \/ MayRefuse(e.c, e.dep), "spurious ReadConflictError")
         ELSE Ok(e.res = "ok", "computed attribute failed: " \o e.res)
    [] e.op = "CNT" -> Ok(e.n <= e.max, "the cache did not return to its target size")
    [] e.op = "PB" -> Ok(e.res = "ok", "pack failed to start: " \o e.res)
    [] e.op = "PE" -> PackClause(e)
    [] e.op = "RO" -> First(<< Ok(e.res = "ok", "reopening failed: " \o e.res),
                               Ok(RowsOk(e.db) /\ RefsOk(e.db), "wrong records after reopening"),
                               Ok(DbOf(e.db) = db, "reopened storage differs") >>)
    [] e.op = "KN" ->
         CASE e.res = "end" -> ""
           [] e.res = "RC" -> Ok(inval[e.c] # {} \/ synced[e.c], "spurious ReadConflictError")
           [] OTHER -> Ok(e.res = "ok", "crawler failed: " \o e.res)
    [] e.op = "KD" ->
         \* a crawl without interference: exactly the reachable objects
         First(<< Ok(e.res = "ok", "crawl failed: " \o e.res),
                  Ok(SetOf(e.oids) = Reachable(snap[e.c]), "crawl did not find the reachable objects"),
                  Ok(Len(e.oids) = Cardinality(SetOf(e.oids)), "crawl found an object twice") >>)
    [] e.op = "HANG" -> "no answer: " \o e.what
    [] OTHER -> "driver: unknown event " \o e.op

-----------------------------------------------------------------------------
OpEnd(c) == /\ synced' = [synced EXCEPT ![c] = FALSE]
            /\ pend' = [pend EXCEPT ![c] = FALSE]
Keep == UNCHANGED <<comp, garb, packing>>
\* an object is garbage for a pack if it is not reachable during the pack, neither
\* from the root nor from an object that is committed meanwhile
UpdateGarb(d, written) == IF packing THEN garb \ ReachFrom(d, {0} \cup written, {}) ELSE garb

Refuse(c) == /\ mode' = [mode EXCEPT ![c] = "conflict"]
             /\ UNCHANGED <<db, snap, inval, acc, loc, new>>

Apply(e) ==
  CASE e.op = "J" -> Join(e.c) /\ OpEnd(e.c) /\ comp' = [comp EXCEPT ![e.c] = {}]
                     /\ UNCHANGED <<garb, packing>>
    [] e.op = "X" -> Leave(e.c) /\ OpEnd(e.c) /\ Keep
    [] e.op = "SY" -> /\ SyncOf(e.c) /\ UNCHANGED <<db, acc, loc, new, mode>>
                      /\ synced' = [synced EXCEPT ![e.c] = TRUE]
                      /\ pend' = [pend EXCEPT ![e.c] = @ \/ Conflict(e.c)] /\ Keep
    [] e.op = "R" ->
         /\ IF e.res = "RC" THEN Refuse(e.c)
            ELSE IF IsLocal(e.c, e.o, e.st) THEN ReadLocal(e.c, e.o)
            ELSE ReadMoved(e.c, e.o)
         /\ OpEnd(e.c) /\ Keep
    [] e.op = "W" ->
         /\ IF e.res = "RC" THEN Refuse(e.c)
            ELSE IF IsLocalW(e.c, e) THEN WriteLocal(e.c, e.o, e.f, e.x)
            ELSE WriteMoved(e.c, e.o, e.f, e.x)
         /\ OpEnd(e.c) /\ UNCHANGED <<garb, packing>>
         /\ comp' = [comp EXCEPT ![e.c] = @ \ {e.o}]
    [] e.op = "N" -> Create(e.c, e.n, e.st) /\ OpEnd(e.c) /\ Keep
    [] e.op = "NF" -> /\ new' = [new EXCEPT ![e.c] = Restrict(@, DOMAIN @ \ SetOf(e.ns))]
                      /\ UNCHANGED <<db, snap, inval, acc, loc, mode>> /\ OpEnd(e.c) /\ Keep
    [] e.op = "NW" -> WriteNew(e.c, e.n, e.f, e.x) /\ OpEnd(e.c) /\ Keep
    [] e.op = "C" ->
         /\ CASE e.res = "ok" /\ Changed(e.c) # {} ->
                   CommitOk(e.c, MapOf(e.m)) /\ garb' = UpdateGarb(db', DOMAIN Written(e.c, MapOf(e.m)))
              [] e.res = "ok" /\ ~synced[e.c] -> CommitEmpty(e.c) /\ UNCHANGED garb
              [] e.res = "ok" -> /\ acc' = [acc EXCEPT ![e.c] = {}]
                                 /\ UNCHANGED <<db, snap, inval, loc, new, mode, garb>>
              [] e.res = "WC" /\ e.fail = 2 -> CommitRefused(e.c) /\ UNCHANGED garb
              [] e.res = "WC" -> CommitConflict(e.c) /\ UNCHANGED garb
              [] OTHER -> CommitFails(e.c) /\ UNCHANGED garb
         /\ comp' = IF e.res = "ok" THEN [comp EXCEPT ![e.c] = {}] ELSE comp
         /\ UNCHANGED packing /\ OpEnd(e.c)
    [] e.op = "A" ->
         /\ IF synced[e.c]
            THEN /\ acc' = [acc EXCEPT ![e.c] = {}] /\ loc' = [loc EXCEPT ![e.c] = EmptyFn]
                 /\ mode' = [mode EXCEPT ![e.c] = "ok"] /\ UNCHANGED <<db, new, snap, inval>>
            ELSE Abort(e.c)
         /\ OpEnd(e.c) /\ comp' = [comp EXCEPT ![e.c] = {}] /\ UNCHANGED <<garb, packing>>
    [] e.op = "GET" ->
         /\ IF e.res = "RC" THEN Refuse(e.c)
            ELSE UNCHANGED txvars
         /\ OpEnd(e.c) /\ Keep
    [] e.op = "CT" -> /\ acc' = [acc EXCEPT ![e.c] = @ \cup {e.o}]
                      /\ UNCHANGED <<db, snap, inval, loc, new, mode, synced, pend>> /\ Keep
    [] e.op = "CG" ->
         /\ IF e.res = "RC" THEN Refuse(e.c)
            ELSE /\ acc' = [acc EXCEPT ![e.c] = @ \cup {e.o} \cup (IF e.n = 1 THEN {e.dep} ELSE {})]
                 /\ UNCHANGED <<db, snap, inval, loc, new, mode>>
         /\ comp' = IF e.res = "ok" THEN [comp EXCEPT ![e.c] = @ \cup {e.o}] ELSE comp
         /\ UNCHANGED <<garb, packing>> /\ OpEnd(e.c)
    [] e.op = "KN" ->
         /\ IF e.res = "RC" THEN Refuse(e.c)
            ELSE UNCHANGED txvars
         /\ OpEnd(e.c) /\ Keep
    [] e.op = "PB" -> /\ packing' = TRUE /\ garb' = DOMAIN db \ Reachable(db)
                      /\ UNCHANGED <<txvars, synced, pend, comp>>
    [] e.op = "PE" ->
         /\ db' = DbOf(e.db)
         /\ inval' = [d \in Clients |-> inval[d] \cup (DOMAIN db \ DOMAIN db')]
         /\ UNCHANGED <<snap, acc, loc, new, mode>>
         /\ IF e.fin = 1 THEN packing' = FALSE /\ garb' = {} ELSE UNCHANGED <<packing, garb>>
         /\ UNCHANGED <<synced, pend, comp>>
    [] e.op = "RO" ->
         \* a pack that was running is given up
         /\ packing' = FALSE /\ garb' = {}
         /\ UNCHANGED <<txvars, synced, pend, comp>>
    [] OTHER -> UNCHANGED <<txvars, synced, pend>> /\ Keep

TraceStep ==
  /\ ~stop
  /\ IF l > Last
     THEN /\ PrintT(<<"DONE", tid, l, "">>) /\ stop' = TRUE
          /\ UNCHANGED <<txvars, tid, l, synced, pend, comp, garb, packing>>
     ELSE LET cl == Clause(E) IN
          IF cl # ""
          THEN /\ PrintT(<<"BAD", tid, l, cl>>) /\ stop' = TRUE
               /\ UNCHANGED <<txvars, tid, l, synced, pend, comp, garb, packing>>
          ELSE Apply(E) /\ l' = l + 1 /\ UNCHANGED <<tid, stop>>
TraceSpec == TraceInit /\ [][TraceStep]_tvars
=============================================================================
