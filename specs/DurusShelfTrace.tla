-------------------------- MODULE DurusShelfTrace --------------------------
(***************************************************************************)
(* Judges a Shelf (sh.py): after every operation, every way to look at it   *)
(* gives the mapping; positions stay valid; next_name() is fresh.           *)
(*   m  the mapping;  pos  the position of every name (learned once)        *)
(*   old  all <<position, name, value>> known;  given  names handed out     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, stop, m, pos, old, given
lvars == <<m, pos, old, given>>
tvars == <<tid, l, stop, lvars>>
Ev == Traces[tid].ev
E == Ev[l]
None == [x \in {} |-> 0]
Shelf == INSTANCE DurusShelf WITH Names <- {}, Values <- {}, MaxLog <- 0, MaxGiven <- 0, LookInLog <- TRUE, s <- 0
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ stop = FALSE /\ m = None /\ pos = None /\ old = {} /\ given = {}
Ok(b, clause) == IF b THEN "" ELSE clause
First(q) == IF \E i \in DOMAIN q : q[i] # ""
            THEN q[CHOOSE i \in DOMAIN q : q[i] # "" /\ \A j \in 1..(i-1) : q[j] = ""] ELSE ""
Set(q) == {q[i] : i \in DOMAIN q}
\* the mapping after
M(e) == CASE e.op = "INIT" -> Shelf!Batch(None, e.items)
          [] e.op = "STORE" /\ e.how = "ok" -> Shelf!Batch(m, e.items)
          [] OTHER -> m
Pairs(f) == {<<n, f[n]>> : n \in DOMAIN f}
New(e) == IF e.op = "STORE" /\ e.how = "ok" THEN e.out ELSE <<>>
\* positions after: those of this store, those known, those seen for the first time
LastNew(e) == Shelf!Batch(None, [i \in DOMAIN New(e) |-> <<New(e)[i][1], New(e)[i][3]>>])
Pos(e) == LET seen == [n \in {p[1] : p \in Set(e.index)} |-> (CHOOSE p \in Set(e.index) : p[1] = n)[2]] IN
          LastNew(e) @@ pos @@ seen
StoreClause(e) ==
  IF e.how # "ok" THEN Ok(e.res = "error", "a store that should fail: " \o e.res)
  ELSE First(<<Ok(e.res = "ok", "store: " \o e.res),
    Ok(Len(e.out) = Len(e.items) /\ \A i \in DOMAIN e.out : e.out[i][1] = e.items[i][1], "store: wrong names in the result"),
    Ok(\A i \in DOMAIN e.out : e.out[i][2] = IF e.out[i][1] \in DOMAIN m THEN pos[e.out[i][1]] ELSE -1, "store: wrong old position"),
    Ok(\A i \in DOMAIN e.out : \A o \in old : o[1] # e.out[i][3], "store: a position that is in use")>>)
ViewClause(e) == LET f == M(e)  p == Pos(e) IN
  First(<<Ok(Len(e.view) = Cardinality(DOMAIN f), e.op \o ": items() gives too many or too few"),
          Ok(Set(e.view) = Pairs(f), e.op \o ": wrong items"),
          Ok(Len(e.names) = Cardinality(DOMAIN f) /\ Set(e.names) = DOMAIN f, e.op \o ": iteration gives wrong names"),
          Ok(Len(e.index) = Cardinality(DOMAIN f) /\ Set(e.index) = Pairs(p), e.op \o ": wrong positions"),
          Ok(\A q \in Set(e.probe) : q[2] = (IF q[1] \in DOMAIN f THEN 1 ELSE 0), e.op \o ": wrong membership"),
          Ok(\A q \in Set(e.probe) : q[3] = (IF q[1] \in DOMAIN f THEN f[q[1]] ELSE -1), e.op \o ": wrong value"),
          Ok(\A q \in Set(e.probe) : q[4] = (IF q[1] \in DOMAIN p THEN p[q[1]] ELSE -1), e.op \o ": wrong position"),
          Ok(\A q \in Set(e.at) : q \in old \union {<<p[n], n, f[n]>> : n \in DOMAIN p}
               \union {<<New(e)[i][3], e.items[i][1], e.items[i][2]>> : i \in DOMAIN New(e)}, e.op \o ": wrong item at a position")>>)
Clause(e) ==
  CASE e.op = "HANG" -> "no answer: " \o e.what
    [] e.op = "ERR" -> "driver: " \o e.what
    [] e.op = "STORE" -> First(<<StoreClause(e), ViewClause(e)>>)
    [] e.op = "NEXT" -> First(<<Ok(e.res = "ok", "next_name: " \o e.res),
                                Ok(e.out[1] \notin DOMAIN m, "next_name() gives a name in use"),
                                Ok(e.out[1] \notin given, "next_name() gives a name again"), ViewClause(e)>>)
    [] OTHER -> First(<<Ok(e.res = "ok", e.op \o ": " \o e.res), ViewClause(e)>>)
Apply(e) ==
  /\ m' = M(e)
  /\ pos' = Pos(e)
  /\ old' = old \union {<<Pos(e)[n], n, M(e)[n]>> : n \in DOMAIN Pos(e)}
                \union {<<New(e)[i][3], e.items[i][1], e.items[i][2]>> : i \in DOMAIN New(e)}
  /\ given' = CASE e.op = "NEXT" -> given \union {e.out[1]} [] e.op = "REOPEN" -> {} [] OTHER -> given
TraceStep ==
  /\ ~stop
  /\ IF l > Len(Ev)
     THEN PrintT(<<"DONE", tid, l, "">>) /\ stop' = TRUE /\ UNCHANGED <<tid, l, lvars>>
     ELSE LET cl == Clause(E) IN
          IF cl # "" THEN PrintT(<<"BAD", tid, l, cl>>) /\ stop' = TRUE /\ UNCHANGED <<tid, l, lvars>>
          ELSE Apply(E) /\ l' = l + 1 /\ UNCHANGED <<tid, stop>>
TraceSpec == TraceInit /\ [][TraceStep]_tvars
=============================================================================
