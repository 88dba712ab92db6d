--------------------------- MODULE DurusLockTrace ---------------------------
(***************************************************************************)
(* Judges histories of several processes that open one path (lk.py).        *)
(*   dbs      the states that the database may be in (more than one only    *)
(*            after a process was killed during a commit)                   *)
(*   holders  processes between the return of an open for writing and the   *)
(*            call of close                                                 *)
(*   inop     operation in progress of each process                         *)
(*   rival    processes in an operation during which another one wrote,     *)
(*            held the lock or tried to                                     *)
(*   seen     states during the read of each process                        *)
(*   dirty    a process was killed and nobody opened for writing since      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, stop, dbs, holders, inop, pend, rival, seen, dirty
lvars == <<dbs, holders, inop, pend, rival, seen, dirty>>
tvars == <<tid, l, stop, lvars>>
Ev == Traces[tid].ev
E == Ev[l]
Procs == 1..3
Empty == [x \in {} |-> 0]
DbOf(rows) == [o \in {rows[i][1] : i \in DOMAIN rows} |-> rows[CHOOSE i \in DOMAIN rows : rows[i][1] = o][2]]
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ stop = FALSE /\ dbs = {Empty} /\ holders = {}
             /\ inop = [p \in Procs |-> "no"] /\ pend = Empty /\ rival = {} /\ seen = [p \in Procs |-> {}]
             /\ dirty = FALSE
Ok(b, clause) == IF b THEN "" ELSE clause
First(s) == IF \E i \in DOMAIN s : s[i] # ""
            THEN s[CHOOSE i \in DOMAIN s : s[i] # "" /\ \A j \in 1..(i-1) : s[j] = ""] ELSE ""
Writing(p) == p \in holders \/ inop[p] \in {"open", "close", "commit", "pack", "step"}
\* a process killed while it created the file may leave one that cannot be opened
Excused == dirty /\ dbs = {Empty}

RetClause(e) ==
  LET w == e.w d == DbOf(e.db) IN
  CASE e.what = "open" /\ e.res = "ok" ->
         First(<< Ok(holders = {}, "two processes have the database open for writing"),
                  Ok(d \in dbs, "an open for writing does not show the committed state") >>)
    [] e.what = "open" ->
         Ok(w \in rival \/ Excused, "an open for writing failed although nobody else had it open: " \o e.res)
    [] e.what = "look" /\ e.res = "ok" ->
         First(<< Ok(d \in seen[w], "a reader does not see a committed state"),
                  Ok(e.cres # "ok", "a reader was allowed to commit"),
                  Ok(e.mod = 0, "a reader changed files") >>)
    [] e.what = "look" -> First(<< Ok(w \in rival \/ dirty \/ dbs = {Empty}, "opening read-only failed: " \o e.res),
                                   Ok(e.mod = 0, "a reader changed files") >>)
    [] e.what = "commit" -> Ok(e.res = "ok", "a commit failed: " \o e.res)
    [] e.what \in {"pack", "step"} -> Ok(e.res = "ok", "a pack failed: " \o e.res)
    [] e.what = "close" -> Ok(e.res = "ok", "close failed: " \o e.res)
    [] OTHER -> "driver: unknown operation"
Clause(e) == CASE e.op = "RET" -> RetClause(e)
               [] e.op = "HANG" -> "no answer: " \o e.what
               [] e.op \in {"CALL", "KILL"} -> ""
               [] OTHER -> "driver: unknown event"
Reading == {p \in Procs : inop[p] \in {"open", "look"}}
\* readers are disturbed by operations only, others also by a writer that does nothing
Disturbs(p) == inop[p] \in {"open", "close", "commit", "pack", "step"}
See(new) == [p \in Procs |-> IF inop[p] = "look" THEN seen[p] \cup new ELSE seen[p]]
Apply(e) ==
  LET w == e.w d == IF e.op = "RET" THEN DbOf(e.db) ELSE Empty IN
  CASE e.op = "CALL" ->
       LET new == IF e.what = "commit" THEN {DbOf(e.rows) @@ x : x \in dbs} ELSE {} IN
       /\ inop' = [inop EXCEPT ![w] = e.what]
       /\ holders' = IF e.what = "close" THEN holders \ {w} ELSE holders
       /\ pend' = IF e.what = "commit" THEN DbOf(e.rows) ELSE pend
       /\ seen' = [See(new) EXCEPT ![w] = dbs \cup IF \E p \in Procs : inop[p] = "commit"
                                                   THEN {pend @@ x : x \in dbs} ELSE {}]
       /\ rival' = LET others == IF e.what = "look" THEN {} ELSE Reading \ {w}
                       mine == CASE e.what = "open" -> \E p \in Procs \ {w} : Writing(p)
                                 [] e.what = "look" -> \E p \in Procs \ {w} : Disturbs(p)
                                 [] OTHER -> FALSE
                   IN (rival \ {w}) \cup others \cup (IF mine THEN {w} ELSE {})
       /\ UNCHANGED <<dbs, dirty>>
    [] e.op = "RET" ->
       /\ inop' = [inop EXCEPT ![w] = "no"]
       /\ holders' = IF e.what = "open" /\ e.res = "ok" THEN holders \cup {w} ELSE holders
       /\ dbs' = CASE e.what = "open" /\ e.res = "ok" -> {d}
                   [] e.what = "commit" -> {pend @@ x : x \in dbs}
                   [] OTHER -> dbs
       /\ dirty' = IF e.what = "open" /\ e.res = "ok" THEN FALSE ELSE dirty
       /\ UNCHANGED <<pend, rival, seen>>
    [] e.op = "KILL" ->
       /\ inop' = [inop EXCEPT ![w] = "no"]
       /\ holders' = holders \ {w}
       /\ dbs' = IF inop[w] = "commit" THEN dbs \cup {pend @@ x : x \in dbs} ELSE dbs
       /\ dirty' = (dirty \/ Writing(w))
       /\ UNCHANGED <<pend, rival, seen>>
    [] OTHER -> UNCHANGED lvars
TraceStep ==
  /\ ~stop
  /\ IF l > Len(Ev)
     THEN PrintT(<<"DONE", tid, l, "">>) /\ stop' = TRUE /\ UNCHANGED <<tid, l, lvars>>
     ELSE LET cl == Clause(E) IN
          IF cl # "" THEN PrintT(<<"BAD", tid, l, cl>>) /\ stop' = TRUE /\ UNCHANGED <<tid, l, lvars>>
          ELSE Apply(E) /\ l' = l + 1 /\ UNCHANGED <<tid, stop>>
TraceSpec == TraceInit /\ [][TraceStep]_tvars
=============================================================================
