------------------------- MODULE DurusArraysTrace -------------------------
(***************************************************************************)
(* Judges arrays (ar.py): the outcome of every operation, the content after *)
(* it (now), and the bytes of the file around the array (around = 1: as     *)
(* they were).                                                              *)
(***************************************************************************)
EXTENDS DurusArrays, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, stop, z
tvars == <<tid, l, stop, z>>
Ev == Traces[tid].ev
E == Ev[l]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ stop = FALSE /\ z = [kind |-> "none", c |-> <<>>, w |-> 0]
Ok(b, clause) == IF b THEN "" ELSE clause
First(q) == IF \E i \in DOMAIN q : q[i] # ""
            THEN q[CHOOSE i \in DOMAIN q : q[i] # "" /\ \A j \in 1..(i-1) : q[j] = ""] ELSE ""
Name(e) == e.kind \o "." \o e.op
Clause(e) ==
  CASE e.op = "HANG" -> "no answer: " \o e.what
    [] e.op = "ERR" -> "driver: " \o e.what
    [] e.op = "INIT" -> First(<<Ok(e.res = "ok", Name(e) \o ": " \o e.res), Ok(e.now = Start(e).c, Name(e) \o ": wrong content"),
                                Ok(e.around = 1, Name(e) \o ": changed neighbouring bytes")>>)
    [] OTHER -> LET all == Outcomes(z, e) IN
       First(<<Ok(\E x \in all : x[1] = e.res, Name(e) \o ": " \o e.res \o " instead of " \o (CHOOSE x \in all : TRUE)[1]),
               Ok(\E x \in all : x[1] = e.res /\ x[2] = e.out, Name(e) \o ": wrong result"),
               Ok(<<e.res, e.out, e.now>> \in all, Name(e) \o ": wrong content"),
               Ok(e.around = 1, Name(e) \o ": changed neighbouring bytes")>>)
TraceStep ==
  /\ ~stop
  /\ IF l > Len(Ev)
     THEN PrintT(<<"DONE", tid, l, "">>) /\ stop' = TRUE /\ UNCHANGED <<tid, l, z>>
     ELSE LET cl == Clause(E) IN
          IF cl # "" THEN PrintT(<<"BAD", tid, l, cl>>) /\ stop' = TRUE /\ UNCHANGED <<tid, l, z>>
          ELSE z' = (IF E.op = "INIT" THEN Start(E) ELSE [z EXCEPT !.c = E.now]) /\ l' = l + 1 /\ UNCHANGED <<tid, stop>>
TraceSpec == TraceInit /\ [][TraceStep]_tvars
=============================================================================
