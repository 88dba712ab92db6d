-------------------------- MODULE DurusContTrace --------------------------
(***************************************************************************)
(* Judges operations on one PersistentList, PersistentDict or PersistentSet *)
(* (ct.py): every result and content against DurusCont; the object is       *)
(* unsaved and part of the next commit if its content changed; reading      *)
(* never makes it so, but is noted as an access.                            *)
(*   c  the content;  cc  as of the last commit;  stored: has a connection  *)
(* Events: st0, st1 status before and after, chg: in the next commit,       *)
(* acc: accessed in this transaction                                        *)
(***************************************************************************)
EXTENDS DurusCont, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, stop, c, cc, stored
lvars == <<c, cc, stored>>
tvars == <<tid, l, stop, lvars>>
Ev == Traces[tid].ev
Kind == Ev[1].kind
E == Ev[l]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ stop = FALSE /\ c = <<>> /\ cc = <<>> /\ stored = FALSE
Ok(b, clause) == IF b THEN "" ELSE clause
First(s) == IF \E i \in DOMAIN s : s[i] # ""
            THEN s[CHOOSE i \in DOMAIN s : s[i] # "" /\ \A j \in 1..(i-1) : s[j] = ""] ELSE ""
Name(e) == Kind \o "." \o e.op \o (IF e.f = "" THEN "" ELSE "." \o e.f) \o (IF e.how = "" THEN "" ELSE "(" \o e.how \o ")")
OpClause(e) ==
  IF e.op = "SORTERR"
  THEN First(<<Ok(e.res \in {"Boom", "TypeError"}, Name(e) \o ": " \o e.res), Ok(SameItems(e.now, c), Name(e) \o ": items lost"),
               Ok(e.now = c \/ (e.st1 = 1 /\ (stored => e.chg = 1)), Name(e) \o ": the change is not noted")>>)
  ELSE LET all == Outcomes(Kind, c, e) IN
  First(<<Ok(\E x \in all : x[1] = e.res, Name(e) \o ": " \o e.res \o " instead of " \o (CHOOSE x \in all : TRUE)[1]),
          Ok(\E x \in all : x[1] = e.res /\ x[2] = e.out, Name(e) \o ": wrong result"),
          Ok(<<e.res, e.out, e.now>> \in all, Name(e) \o ": wrong content"),
          Ok(e.now = c \/ (e.st1 = 1 /\ (stored => e.chg = 1)), Name(e) \o ": the change is not noted"),
          Ok(e.op \notin Reads(Kind) \/ e.st0 = 1 \/ (e.st1 # 1 /\ e.chg = 0), Name(e) \o ": reading made a change"),
          Ok(~stored \/ e.res # "ok" \/ e.op \in {"FROMKEYS", "NEW"} \/ e.how = "self" \/ e.acc = 1 \/ e.chg = 1, Name(e) \o ": the access is not noted")>>)
Clause(e) ==
  CASE e.op = "INIT" -> ""
    [] e.op = "COMMIT" -> First(<<Ok(e.res = "ok", Kind \o ": commit: " \o e.res),
                                  Ok(e.other = c, Kind \o ": another connection finds another content"),
                                  Ok(e.st1 # 1 /\ e.chg = 0, Kind \o ": unsaved after commit"),
                                  Ok(e.more = c, Kind \o ": wrong content after commit")>>)
    [] e.op = "ABORT" -> First(<<Ok(e.st1 # 1 /\ e.chg = 0, Kind \o ": unsaved after abort"),
                                 Ok(e.more = cc, Kind \o ": abort does not restore the content")>>)
    [] e.op = "HANG" -> "no answer: " \o e.what
    [] e.op = "ERR" -> "driver: " \o e.what
    [] OTHER -> OpClause(e)
Apply(e) ==
  CASE e.op = "INIT" -> c' = e.now /\ cc' = e.now /\ stored' = (e.stored = 1)
    [] e.op = "COMMIT" -> cc' = c /\ stored' = TRUE /\ UNCHANGED c
    [] e.op = "ABORT" -> c' = cc /\ UNCHANGED <<cc, stored>>
    [] OTHER -> c' = e.now /\ UNCHANGED <<cc, stored>>
TraceStep ==
  /\ ~stop
  /\ IF l > Len(Ev)
     THEN PrintT(<<"DONE", tid, l, "">>) /\ stop' = TRUE /\ UNCHANGED <<tid, l, lvars>>
     ELSE LET cl == Clause(E) IN
          IF cl # "" THEN PrintT(<<"BAD", tid, l, cl>>) /\ stop' = TRUE /\ UNCHANGED <<tid, l, lvars>>
          ELSE Apply(E) /\ l' = l + 1 /\ UNCHANGED <<tid, stop>>
TraceSpec == TraceInit /\ [][TraceStep]_tvars
=============================================================================
