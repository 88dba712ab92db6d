---------------------------- MODULE DurusLogTrace ----------------------------
(***************************************************************************)
(* Judges histories of one storage together with what the real code makes   *)
(* of the files that a crash at any file operation leaves (cr.py).          *)
(* A record is <<version, set of referenced oids>>.                         *)
(*   db    the last acknowledged state;  pend  the commit in progress       *)
(*   prev  garbage that the last pack removed (until something is forced    *)
(*         to disk the replaced file may come back)                         *)
(*   hist  <<file size, state, mixed>> after each commit since the file was *)
(*         begun; mixed: the file begins with what a pack wrote, and commits *)
(*         made during that pack follow in one further transaction          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, stop, db, pend, packing, prev, hist, acked, during
lvars == <<db, pend, packing, prev, hist, acked, during>>
tvars == <<tid, l, stop, lvars>>
Ev == Traces[tid].ev
E == Ev[l]
Empty == [x \in {} |-> 0]
SetOf(s) == {s[i] : i \in DOMAIN s}
DbOf(rows) == [o \in {rows[i][1] : i \in DOMAIN rows} |->
                 LET r == rows[CHOOSE i \in DOMAIN rows : rows[i][1] = o] IN <<r[2], SetOf(r[3])>>]
RowsOk(rows) == Cardinality({rows[i][1] : i \in DOMAIN rows}) = Len(rows)
RECURSIVE Reach(_, _, _)
Reach(d, frontier, acc) ==
  LET fr == (frontier \cap DOMAIN d) \ acc IN
  IF fr = {} THEN acc ELSE Reach(d, UNION {d[o][2] : o \in fr}, acc \cup fr)
Reachable(d) == Reach(d, {0}, {})
Restrict(f, S) == [x \in DOMAIN f \cap S |-> f[x]]

TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ stop = FALSE
             /\ db = Empty /\ pend = Empty /\ packing = FALSE /\ prev = Empty /\ hist = <<>> /\ acked = 0 /\ during = FALSE
Ok(b, clause) == IF b THEN "" ELSE clause
First(s) == IF \E i \in DOMAIN s : s[i] # ""
            THEN s[CHOOSE i \in DOMAIN s : s[i] # "" /\ \A j \in 1..(i-1) : s[j] = ""] ELSE ""

\* d is the state B, but for garbage while the effect of a pack is uncertain
Is(d, B) ==
  IF ~packing /\ prev = Empty THEN d = B
  ELSE /\ \A o \in Reachable(B) : o \in DOMAIN d /\ d[o] = B[o]
       /\ \A o \in DOMAIN d \ Reachable(B) : \/ o \in DOMAIN B /\ d[o] = B[o]
                                             \/ o \in DOMAIN prev /\ d[o] = prev[o]
Allowed(d) == Is(d, db) \/ (pend # Empty /\ Is(d, pend @@ db))
LessThanAcked(d) == \E o \in DOMAIN db : o \in Reachable(db) /\ (o \notin DOMAIN d \/ d[o][1] < db[o][1])

CrashClause(e) ==
  LET d == DbOf(e.db)
      open == e.open = "ok" \/ e.rep = "ok"
      m == DbOf(e.new) @@ d
  IN CASE ~open -> Ok(acked = 0, "what a crash left cannot be opened (" \o e.what \o "): " \o e.open \o ", " \o e.rep)
       [] OTHER ->
         First(<< Ok(RowsOk(e.db), "two records with one oid after a crash"),
                  Ok(Allowed(d), (IF LessThanAcked(d) THEN "an acknowledged commit is lost after a crash ("
                                  ELSE "a mixture of states after a crash (") \o e.what \o ")"),
                  Ok(e.mod = 0, "opening read-only changed the files"),
                  Ok(e.ro # "ok" \/ Allowed(DbOf(e.rdb)), "a reader sees a wrong state after a crash"),
                  Ok(e.dres \in {"ok", "no"}, "the recovered storage does not work: " \o e.dres),
                  Ok(e.dres # "ok" \/ \A i \in DOMAIN e.new : i = 1 \/ e.new[i][1] \notin DOMAIN d,
                     "an oid in use was handed out after a crash"),
                  Ok(e.dres # "ok" \/ e.pres # "no" \/ DbOf(e.re) = m, "a commit after a crash is not kept"),
                  Ok(e.dres # "ok" \/ e.pres = "no" \/ DbOf(e.pk) = Restrict(m, Reachable(m)),
                     "a pack after a crash is wrong"),
                  Ok(e.dres # "ok" \/ e.pres = "no" \/ e.re = e.pk, "a pack after a crash is not kept") >>)
\* the last commit before a cut
Upto(n) == {i \in DOMAIN hist : hist[i][1] <= n}
CutClause(e) ==
  LET is == Upto(e.at)
      states == IF is = {} THEN IF hist[1][2] = Empty THEN {Empty} ELSE {} ELSE {hist[i][2] : i \in is}
      last == hist[CHOOSE i \in is : \A j \in is : j <= i][2]
  IN IF is = {} /\ hist[1][3] THEN ""
     ELSE
     First(<< Ok(e.open # "ok" \/ DbOf(e.db) \in states, "a cut file opened as a state that never was"),
              Ok(is = {} \/ e.rep = "ok", "a cut file cannot be repaired: " \o e.rep),
              Ok(e.rep # "ok" \/ DbOf(e.rdb) = IF is = {} THEN Empty ELSE last,
                 "a repaired file is not the last complete commit"),
              Ok(e.rep # "ok" \/ is # {} \/ hist[1][2] = Empty, "a file was repaired without its base") >>)
Clause(e) ==
  CASE e.op = "OP" -> First(<< Ok(e.open = "ok" \/ e.rep = "ok", "cannot be opened: " \o e.open \o ", " \o e.rep),
                               Ok(DbOf(e.db) = db, "opened with a wrong state") >>)
    [] e.op = "CM" -> ""
    [] e.op = "ACK" -> First(<< Ok(e.res = "ok", "commit failed: " \o e.res),
                                Ok(e.low >= e.size, "a commit changed what was written before"),
                                Ok(e.sync = 1, "commit returned before its data was forced to disk") >>)
    [] e.op = "PB" -> ""
    [] e.op = "PE" ->
         LET d == DbOf(e.db) IN
         First(<< Ok(e.res = "ok", "pack failed: " \o e.res), Ok(RowsOk(e.db), "two records with one oid"),
                  Ok(DOMAIN d \subseteq DOMAIN db, "pack added objects"),
                  Ok(Reachable(db) \subseteq DOMAIN d, "pack removed a reachable object"),
                  Ok(\A o \in DOMAIN d : d[o] = db[o], "pack altered an object"),
                  Ok(e.sync = 1, "a pack replaced the file before it was forced to disk") >>)
    [] e.op = "CR" -> CrashClause(e)
    [] e.op = "CRASH" -> ""
    [] e.op = "CUT" -> CutClause(e)
    [] e.op = "RD" -> First(<< Ok(e.res = "ok", "opening read-only failed: " \o e.res),
                               Ok(DbOf(e.db) = db, "a reader does not see the committed state"),
                               Ok(e.cres # "ok", "a reader was allowed to commit"),
                               Ok(e.mod = 0, "a reader changed files"),
                               Ok(DbOf(e.after) = db, "a reader changed the database") >>)
    [] e.op = "HANG" -> "no answer: " \o e.what
    [] OTHER -> "driver: unknown event"
Apply(e) ==
  CASE e.op = "OP" -> hist' = << <<e.end, db, FALSE>> >> /\ UNCHANGED <<db, pend, packing, prev, acked, during>>
    [] e.op = "CM" -> pend' = DbOf(e.rows) /\ UNCHANGED <<db, packing, prev, hist, acked, during>>
    [] e.op = "ACK" -> /\ db' = pend @@ db /\ pend' = Empty /\ prev' = Empty /\ acked' = acked + 1
                       /\ during' = (during \/ packing)
                       /\ hist' = Append(hist, <<e.end, pend @@ db, FALSE>>) /\ UNCHANGED packing
    [] e.op = "PB" -> packing' = TRUE /\ during' = FALSE /\ UNCHANGED <<db, pend, prev, hist, acked>>
    [] e.op = "PE" -> /\ packing' = (e.fin = 0) /\ prev' = db @@ prev /\ db' = DbOf(e.db)
                      /\ hist' = << <<e.end, DbOf(e.db), during>> >> /\ UNCHANGED <<pend, acked, during>>
    [] e.op = "CRASH" -> /\ db' = DbOf(Ev[l-1].db) /\ pend' = Empty /\ packing' = FALSE /\ prev' = Empty /\ hist' = <<>> /\ during' = FALSE
                         /\ acked' = IF Ev[l-1].open = "ok" \/ Ev[l-1].rep = "ok" THEN acked ELSE 0
    [] OTHER -> UNCHANGED lvars
TraceStep ==
  /\ ~stop
  /\ IF l > Len(Ev)
     THEN PrintT(<<"DONE", tid, l, "">>) /\ stop' = TRUE /\ UNCHANGED <<tid, l, lvars>>
     ELSE LET cl == Clause(E) IN
          IF cl # "" THEN PrintT(<<"BAD", tid, l, cl>>) /\ stop' = TRUE /\ UNCHANGED <<tid, l, lvars>>
          ELSE Apply(E) /\ l' = l + 1 /\ UNCHANGED <<tid, stop>>
TraceSpec == TraceInit /\ [][TraceStep]_tvars
=============================================================================
