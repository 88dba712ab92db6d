---------------------------- MODULE DurusLife ----------------------------
(***************************************************************************)
(* The life cycle of persistent objects of one connection, while somebody   *)
(* else commits (Other) and the storage fails now and then.                 *)
(* Object 0 is the root, its attributes are the objects that are linked.    *)
(*   st    none | new | ghost | saved | unsaved                             *)
(*   val   attributes in memory (none of a ghost)                           *)
(*   db    the committed attributes; an object with none there: NoObj       *)
(*   chg   objects that the next commit stores; acc: read in this           *)
(*   transaction; inv: changed by others, not yet told; bad: in      *)
(*   conflict, until abort;  con: the connection must be aborted            *)
(* MarkBack: a commit that fails makes its objects unsaved again.           *)
(* Loads: writing to a ghost loads it first.                                *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Objs, Attrs, Values, MarkBack, Loads
VARIABLE s
None == [x \in {} |-> 0]
NoObj == [x \in {-1} |-> 0]
All == Objs \union {0}
Init == s = [st |-> [o \in All |-> IF o = 0 THEN "saved" ELSE "none"], val |-> [o \in All |-> None],
             db |-> [o \in All |-> IF o = 0 THEN None ELSE NoObj], chg |-> {}, acc |-> {}, inv |-> {}, bad |-> {}, con |-> FALSE]
Stored(z, o) == z.st[o] \in {"ghost", "saved", "unsaved"}
Put(f, k, v) == (k :> v) @@ f
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

\* the connection hears of changes while it loads object r (or commits): what was used is in conflict
Touched(z) == z.inv \cap (z.acc \union z.chg)
Hear(z) == [z EXCEPT !.inv = {}, !.con = (Touched(z) # {}), !.bad = Touched(z),
                     !.st = [o \in All |-> IF o \in z.inv \ Touched(z) /\ Stored(z, o) THEN "ghost" ELSE z.st[o]],
                     !.val = [o \in All |-> IF o \in z.inv \ Touched(z) THEN None ELSE z.val[o]]]
\* a ghost o is loaded; fails: the storage has an error at the moment
LoadedOk(z, o, fails) == ~fails /\ (o \notin z.inv \/ Touched(z) = {})
Load(z, o, fails) ==
  IF z.st[o] # "ghost" THEN z
  ELSE IF fails THEN z
  ELSE LET y == IF o \in z.inv THEN Hear(z) ELSE z IN
       IF y.con THEN y ELSE [y EXCEPT !.st[o] = "saved", !.val[o] = y.db[o]]
Usable(z, o, fails) == z.st[o] # "ghost" \/ LoadedOk(z, o, fails)

\* reading an ordinary attribute
Read(z, o, fails) == LET y == Load(z, o, fails) IN
                     IF Usable(z, o, fails) /\ Stored(z, o) THEN [y EXCEPT !.acc = @ \union {o}] ELSE y
\* noting a change
Note(z, o, fails) == LET y == IF Loads THEN Load(z, o, fails) ELSE z IN
                     IF ~Usable(z, o, fails) \/ z.st[o] = "new" THEN y
                     ELSE [y EXCEPT !.st[o] = "unsaved", !.chg = @ \union {o}]
Set(z, o, a, v, fails) == IF ~Usable(z, o, fails) THEN Load(z, o, fails)
                          ELSE [Note(z, o, fails) EXCEPT !.val[o] = Put(@, a, v)]
Del(z, o, a, fails) == IF ~Usable(z, o, fails) THEN Load(z, o, fails)
                       ELSE [Note(z, o, fails) EXCEPT !.val[o] = Drop(@, a)]
New(z, o) == [z EXCEPT !.st[o] = "new", !.val[o] = None]
\* new objects that a commit finds
Found(z) == IF 0 \in z.chg THEN {o \in Objs : z.st[o] = "new" /\ o \in DOMAIN z.val[0]} ELSE {}
Conflict(z) == z.chg # {} /\ Touched(z) # {}
Sync(z) == LET gone == z.inv \union z.bad IN
           [z EXCEPT !.inv = {}, !.bad = {}, !.con = FALSE, !.acc = {},
                     !.st = [o \in All |-> IF o \in gone /\ Stored(z, o) THEN "ghost" ELSE z.st[o]],
                     !.val = [o \in All |-> IF o \in gone /\ Stored(z, o) THEN None ELSE z.val[o]]]
CommitOk(z) == IF z.chg = {} THEN Sync(z)
               ELSE LET y == Hear(z)  done == z.chg \union Found(z) IN
                    [y EXCEPT !.st = [o \in All |-> IF o \in done THEN "saved" ELSE y.st[o]],
                              !.db = [o \in All |-> IF o \in done THEN z.val[o] ELSE z.db[o]],
                              !.chg = {}, !.acc = {}, !.con = FALSE]
\* a conflict, or an error of the storage before or after it told of changes of others
CommitFails(z, heard) ==
  LET y == IF heard THEN Hear(z) ELSE z IN
  [y EXCEPT !.st = [o \in All |-> IF o \in z.chg /\ ~MarkBack THEN "saved" ELSE y.st[o]]]
Abort(z) == LET y == [z EXCEPT !.st = [o \in All |-> IF o \in z.chg THEN "ghost" ELSE z.st[o]],
                               !.val = [o \in All |-> IF o \in z.chg THEN None ELSE z.val[o]], !.chg = {}]
            IN Sync(y)
\* objects that were changed by others are never left as they are by an abort
Other(z, o, a, v) == [z EXCEPT !.db[o] = Put(@, a, v), !.inv = @ \union {o}]
\* the cache drops the state of a saved object that is not in use
Evictable(z, o) == z.st[o] = "saved" /\ o \notin z.acc
Evict(z, o) == [z EXCEPT !.st[o] = "ghost", !.val[o] = None]

Acts ==
  {<<"NEW", o, 0, 0>> : o \in {x \in Objs : s.st[x] = "none"}}
  \union (IF s.con THEN {<<"ABORT", 0, 0, 0>>} ELSE
  UNION {{<<"GET", o, a, 0>>, <<"GETERR", o, a, 0>>, <<"DEL", o, a, 0>>} : o \in {x \in Objs : s.st[x] # "none"}, a \in Attrs}
  \union {<<"SET", o, a, v>> : o \in {x \in Objs : s.st[x] # "none"}, a \in Attrs, v \in Values}
  \union {<<"LINK", 0, o, 0>> : o \in {x \in Objs : s.st[x] = "new"}}
  \union {<<"SETERR", o, a, v>> : o \in {x \in Objs : s.st[x] = "ghost"}, a \in Attrs, v \in Values}
  \union {<<"SAFE", o, 0, 0>> : o \in {x \in Objs : s.st[x] # "none"}}
  \union {<<"COMMIT", 0, 0, 0>>, <<"ABORT", 0, 0, 0>>}
  \union (IF s.chg # {} THEN {<<"COMMITERR", 0, 0, 0>>}
           \union (IF Conflict(s) THEN {} ELSE {<<"COMMITLATE", 0, 0, 0>>}) ELSE {})
  \union {<<"OTHER", o, a, v>> : o \in {x \in Objs : s.db[x] # NoObj}, a \in Attrs, v \in Values}
  \union {<<"EVICT", o, 0, 0>> : o \in {x \in Objs : Evictable(s, x)}})
Do(z, c) ==
  LET o == c[2] a == c[3] v == c[4] IN
  CASE c[1] = "NEW" -> New(z, o)
    [] c[1] = "GET" -> Read(z, o, FALSE)
    [] c[1] = "GETERR" -> Read(z, o, TRUE)
    [] c[1] = "SET" -> Set(z, o, a, v, FALSE)
    [] c[1] = "SETERR" -> Set(z, o, a, v, TRUE)
    [] c[1] = "LINK" -> Set(z, 0, a, 1, FALSE)
    [] c[1] = "DEL" -> Del(z, o, a, FALSE)
    [] c[1] = "SAFE" -> z
    [] c[1] = "COMMIT" -> IF Conflict(z) THEN CommitFails(z, TRUE) ELSE CommitOk(z)
    [] c[1] = "COMMITERR" -> CommitFails(z, FALSE)
    [] c[1] = "COMMITLATE" -> CommitFails(z, TRUE)
    [] c[1] = "ABORT" -> Abort(z)
    [] c[1] = "OTHER" -> Other(z, o, a, v)
    [] c[1] = "EVICT" -> Evict(z, o)
Next == \E c \in Acts : s' = Do(s, c)
Spec == Init /\ [][Next]_s

\* a ghost has no state; every other stored object that nobody else changed differs from the database only if it is unsaved
Ghosts == \A o \in All : s.st[o] \in {"ghost", "none"} => s.val[o] = None
Current == \A o \in All : s.st[o] = "saved" /\ o \notin s.inv \union s.bad /\ ~s.con => s.val[o] = s.db[o]
Changed == \A o \in All : s.st[o] = "unsaved" <=> o \in s.chg
Exists == \A o \in All : Stored(s, o) <=> s.db[o] # NoObj
\* what a transaction changed is not lost before commit or abort
Kept == [][\A c \in Acts : s' = Do(s, c) /\ c[1] \notin {"COMMIT", "ABORT"} => s.chg \subseteq s'.chg /\
           \A o \in s.chg : (c[2] = o /\ c[1] \in {"SET", "SETERR", "DEL", "LINK"}) \/ s'.val[o] = s.val[o]]_s
\* writing to a ghost keeps its other attributes
Whole == [][\A c \in Acts : s' = Do(s, c) /\ c[1] = "SET" /\ s.st[c[2]] = "ghost" /\ s'.st[c[2]] = "unsaved" =>
            \A a \in DOMAIN s.db[c[2]] : a \in DOMAIN s'.val[c[2]]]_s
\* nothing but a commit changes the database, and it stores everything that was changed
Stores == [][(s'.db # s.db => \E o \in All : s'.db[o] # s.db[o] /\ (o \in s.chg \union Found(s) \/ o \in s'.inv))]_s
=============================================================================
