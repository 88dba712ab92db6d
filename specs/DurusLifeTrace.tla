-------------------------- MODULE DurusLifeTrace --------------------------
(***************************************************************************)
(* Judges the life of persistent objects (lf.py) against DurusLife.  Every  *)
(* event carries the statuses of all objects after it, the set of objects   *)
(* that the next commit stores, those accessed in this transaction, and     *)
(* those that the storage was asked for.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, stop, s
tvars == <<tid, l, stop, s>>
Life == INSTANCE DurusLife WITH Objs <- 1..4, Attrs <- 1..3, Values <- 1..9, MarkBack <- TRUE, Loads <- TRUE
All == 0..4
Ev == Traces[tid].ev
E == Ev[l]
NN == -99
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ stop = FALSE /\ Life!Init
Ok(b, clause) == IF b THEN "" ELSE clause
First(q) == IF \E i \in DOMAIN q : q[i] # ""
            THEN q[CHOOSE i \in DOMAIN q : q[i] # "" /\ \A j \in 1..(i-1) : q[j] = ""] ELSE ""
Seen(e) == [o \in All |-> e.st[o + 1]]
Fails(e) == e.err = 1
\* rows of a saved state: <<object, <<<<attribute, value>>..>>>>
Rows(f) == LET k == SetToSortSeq(DOMAIN f, <) IN [i \in DOMAIN k |-> <<k[i], f[k[i]]>>]
DB(z) == LET k == SetToSortSeq({o \in All : z.db[o] # Life!NoObj}, <) IN [i \in DOMAIN k |-> <<k[i], Rows(z.db[k[i]])>>]
Ordinary == {"GET", "HAS", "CALL", "KLASS", "STATE", "COPY", "SET", "LINK", "DEL", "NOTE"}
Usable(e) == Life!Usable(s, e.o, Fails(e))
\* the error of an operation that has to load a ghost and cannot
LoadError(e) == IF s.st[e.o] # "ghost" THEN "" ELSE IF Fails(e) THEN "Broken"
                ELSE IF ~Usable(e) THEN "ReadConflictError" ELSE ""
\* the state after
Post(e) ==
  CASE e.op = "NEW" -> Life!New(s, e.o)
    [] e.op \in {"GET", "HAS", "CALL", "KLASS", "STATE"} -> Life!Read(s, e.o, Fails(e))
    [] e.op = "COPY" -> LET z == Life!Read(s, e.o, Fails(e)) IN
                        IF LoadError(e) # "" THEN z ELSE [z EXCEPT !.st[e.a] = "new", !.val[e.a] = z.val[e.o]]
    [] e.op = "SET" -> Life!Set(s, e.o, e.a, e.v, Fails(e))
    [] e.op = "LINK" -> Life!Set(s, 0, e.a, 1, Fails(e))
    [] e.op = "NOTE" -> Life!Note(s, e.o, Fails(e))
    [] e.op = "DEL" -> IF e.res = "AttributeError" /\ Seen(e)[e.o] # "unsaved"
                       THEN Life!Load(s, e.o, Fails(e)) ELSE Life!Del(s, e.o, e.a, Fails(e))
    [] e.op = "COMMIT" -> IF Life!Conflict(s) THEN Life!CommitFails(s, TRUE) ELSE Life!CommitOk(s)
    [] e.op = "COMMITERR" -> IF s.chg = {} THEN Life!CommitOk(s)
                             ELSE Life!CommitFails(s, e.heard = 1)
    [] e.op = "ABORT" -> Life!Abort(s)
    [] e.op = "OTHER" -> Life!Other(s, e.o, e.a, e.v)
    [] OTHER -> s
Shrinks(e) == e.small = 1 /\ e.op \in {"COMMIT", "COMMITERR", "ABORT", "SHRINK"}
May(z, e, o) == z.st[o] = "saved" /\ Shrinks(e) /\ (e.op = "SHRINK" => o \notin z.acc)
\* with what the cache dropped, and accesses of changed objects
Adopt(z, e) == LET gone == {o \in All : May(z, e, o) /\ Seen(e)[o] = "ghost"} IN
  [z EXCEPT !.st = [o \in All |-> IF o \in gone THEN "ghost" ELSE z.st[o]],
            !.val = [o \in All |-> IF o \in gone THEN Life!None ELSE z.val[o]],
            !.acc = z.acc \union (Range(e.acc) \cap z.chg)]
Value(o, a, e) == LET z == Life!Load(s, o, FALSE) IN
                  IF a \in DOMAIN z.val[o] THEN <<z.val[o][a]>> ELSE IF e.dflt = NN THEN <<>> ELSE <<e.dflt>>
Result(e) ==
  LET want == IF e.op \in Ordinary THEN LoadError(e) ELSE ""
      z == IF e.op \in Ordinary THEN Life!Load(s, e.o, FALSE) ELSE s
      ok(out) == <<"ok", out>> IN
  IF want # "" THEN <<want, <<>>>>
  ELSE CASE e.op = "GET" -> IF Value(e.o, e.a, e) = <<>> THEN <<"AttributeError", <<>>>> ELSE ok(Value(e.o, e.a, e))
         [] e.op = "HAS" -> ok(<<IF Value(e.o, e.a, e) = <<>> THEN 0 ELSE 1>>)
         [] e.op = "DEL" -> IF e.a \in DOMAIN z.val[e.o] THEN ok(<<>>) ELSE <<"AttributeError", <<>>>>
         [] e.op = "CALL" -> ok(<<55>>)
         [] e.op = "KLASS" -> ok(<<77>>)
         [] e.op = "STATE" -> ok(Rows(z.val[e.o]))
         [] e.op = "COMMIT" -> IF Life!Conflict(s) THEN <<"WriteConflictError", <<>>>> ELSE ok(<<>>)
         [] e.op = "COMMITERR" -> IF s.chg = {} THEN ok(<<>>)
                                  ELSE IF e.heard = 1 /\ Life!Conflict(s) THEN <<"WriteConflictError", <<>>>>
                                  ELSE <<"Broken", <<>>>>
         [] OTHER -> ok(<<>>)
Diff(z, e) == {o \in All : z.st[o] # Seen(e)[o]}
StClause(z, e) == LET d == Diff(z, e) IN
  IF d = {} THEN "" ELSE LET o == CHOOSE x \in d : \A y \in d : x <= y IN
  e.op \o ": " \o Seen(e)[o] \o " instead of " \o z.st[o]
Touches(e) == e.op \in Ordinary /\ s.st[e.o] = "ghost"
Clause(e) ==
  IF e.op = "HANG" THEN "no answer: " \o e.what
  ELSE IF e.op = "ERR" THEN "driver: " \o e.what
  ELSE LET z == Adopt(Post(e), e)  r == Result(e) IN
  First(<<Ok(e.res = r[1], e.op \o ": " \o e.res \o " instead of " \o r[1]),
          Ok(e.out = r[2], e.op \o ": wrong result"),
          Ok(~Touches(e) \/ Range(e.loads) = {e.o}, e.op \o ": the ghost was not loaded (or something else was)"),
          Ok(Touches(e) \/ e.op \in {"OTHER"} \/ e.loads = <<>>, e.op \o ": loaded without need"),
          StClause(z, e),
          Ok(Range(e.chg) = z.chg, e.op \o ": wrong objects in the next commit"),
          Ok(z.acc \subseteq Range(e.acc) /\ Range(e.acc) \subseteq z.acc \union z.chg, e.op \o ": wrong accesses noted"),
          Ok(e.op # "COMMIT" \/ e.db = DB(z), "COMMIT: the database does not hold what was committed"),
          Ok(e.op # "FINAL" \/ e.db = DB(z), "FINAL: another connection finds something else")>>)
TraceStep ==
  /\ ~stop
  /\ IF l > Len(Ev)
     THEN PrintT(<<"DONE", tid, l, "">>) /\ stop' = TRUE /\ UNCHANGED <<tid, l, s>>
     ELSE LET cl == Clause(E) IN
          IF cl # "" THEN PrintT(<<"BAD", tid, l, cl>>) /\ stop' = TRUE /\ UNCHANGED <<tid, l, s>>
          ELSE s' = Adopt(Post(E), E) /\ l' = l + 1 /\ UNCHANGED <<tid, stop>>
TraceSpec == TraceInit /\ [][TraceStep]_tvars
=============================================================================
