----------------------------- MODULE DurusPack -----------------------------
(***************************************************************************)
(* Incremental packing of a storage while commits happen between its steps. *)
(* A record is <<version, set of referenced oids>>.  Algorithms:            *)
(*   "shelf"  FileStorage: copy what is reachable from the root, then find  *)
(*            what is missing, then (in one step) copy what was committed   *)
(*            meanwhile with everything it refers to, and swap.             *)
(*   "copy"   FileStorage2: copy what is reachable, always preferring what  *)
(*            was committed meanwhile; swap when nothing is left.           *)
(*   "mark"   SqliteStorage: mark what is reachable, preferring what was    *)
(*            committed meanwhile; then delete what is not marked.          *)
(***************************************************************************)
(* Weakened designs, which lose objects (Weak # ""):                       *)
(*   "none"   what is committed meanwhile is ignored                        *)
(*   "seen"   ... unless it has not been visited yet                        *)
(*   "old"    new objects are ignored     "fresh"  only new ones are noted  *)
(*   "refs"   it is copied without what it refers to                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Alg, MaxOid, MaxCommits, Weak

Oids == 0..MaxOid
VARIABLES db, phase, todo, seen, copy, extra, missing, reported, garb, commits, removed
pvars == <<db, phase, todo, seen, copy, extra, missing, reported, garb, commits, removed>>

RefsOf(o) == db[o][2]
RECURSIVE Reach(_, _, _)
Reach(d, frontier, acc) ==
  LET fr == (frontier \cap DOMAIN d) \ acc IN
  IF fr = {} THEN acc ELSE Reach(d, UNION {d[o][2] : o \in fr}, acc \cup fr)
ReachableIn(d) == Reach(d, {0}, {})
Restrict(f, S) == [x \in DOMAIN f \cap S |-> f[x]]

Graphs == {d \in [Oids -> {<<0, s>> : s \in SUBSET Oids}] : \A o \in Oids : Cardinality(d[o][2]) <= 2}
Init ==
  /\ \E d \in Graphs : \E present \in SUBSET Oids :
       /\ 0 \in present /\ \A o \in present : d[o][2] \subseteq present
       /\ db = Restrict(d, present)
  /\ phase = "idle" /\ todo = {} /\ seen = {} /\ copy = [x \in {} |-> 0] /\ extra = {}
  /\ missing = {} /\ reported = {} /\ garb = {} /\ commits = 0 /\ removed = {}

Running == phase \notin {"idle", "done"}
Noted(o, fresh) == CASE Weak = "none" -> {}
                     [] Weak = "seen" -> ({o} \cup fresh) \ seen
                     [] Weak = "old" -> {o}
                     [] Weak = "fresh" -> fresh
                     [] OTHER -> {o} \cup fresh
\* a commit changes one object (and perhaps creates one), referring to what exists
Commit ==
  /\ commits < MaxCommits /\ phase # "done"
  /\ \E o \in DOMAIN db : \E fresh \in SUBSET (Oids \ DOMAIN db) :
       /\ Cardinality(fresh) <= 1
       /\ \E refs \in SUBSET (DOMAIN db \cup fresh) :
            /\ Cardinality(refs) <= 2 /\ fresh \subseteq refs
            /\ db' = [x \in DOMAIN db \cup fresh |->
                        IF x = o THEN <<db[o][1] + 1, refs>>
                        ELSE IF x \in fresh THEN <<0, {}>> ELSE db[x]]
            /\ extra' = IF Running THEN extra \cup Noted(o, fresh) ELSE extra
            /\ garb' = IF Running THEN garb \ Reach(db', {0, o} \cup fresh, {}) ELSE garb
  /\ commits' = commits + 1
  /\ UNCHANGED <<phase, todo, seen, copy, missing, reported, removed>>

Start ==
  /\ phase = "idle" /\ phase' = "copy" /\ todo' = {0} /\ seen' = {} /\ extra' = {}
  /\ copy' = [x \in {} |-> 0] /\ missing' = {}
  /\ garb' = DOMAIN db \ ReachableIn(db)
  /\ UNCHANGED <<db, reported, commits, removed>>

\* visit one object
CopyStep ==
  /\ phase = "copy"
  /\ IF Alg # "shelf" /\ extra # {}
     THEN \E o \in extra :
            /\ extra' = extra \ {o} /\ seen' = seen \cup {o}
            /\ copy' = (o :> db[o]) @@ copy
            /\ todo' = IF Weak = "refs" THEN todo ELSE todo \cup RefsOf(o)
            /\ UNCHANGED phase
     ELSE IF todo \ seen # {}
     THEN \E o \in todo \ seen :
            /\ seen' = seen \cup {o} /\ copy' = (o :> db[o]) @@ copy
            /\ todo' = (todo \ {o}) \cup RefsOf(o) /\ UNCHANGED <<extra, phase>>
     ELSE /\ phase' = IF Alg = "shelf" THEN "missing" ELSE "finish"
          /\ UNCHANGED <<todo, seen, copy, extra>>
  /\ UNCHANGED <<db, missing, reported, garb, commits, removed>>

\* the set of missing oids is collected while commits go on
MissingStep ==
  /\ phase = "missing" /\ phase' = "finish"
  /\ missing' = DOMAIN db \ DOMAIN copy
  /\ UNCHANGED <<db, todo, seen, copy, extra, reported, garb, commits, removed>>

\* what is copied for the objects committed meanwhile (FileStorage)
RECURSIVE Extend(_, _, _)
Extend(cp, frontier, sn) ==
  LET fr == frontier \ sn IN
  IF fr = {} THEN cp
  ELSE Extend([x \in DOMAIN cp \cup fr |-> IF x \in fr THEN db[x] ELSE cp[x]],
              IF Weak = "refs" THEN {} ELSE UNION {RefsOf(o) : o \in fr}, sn \cup fr)
Finish ==
  /\ phase = "finish"
  /\ Alg = "shelf" \/ extra = {}
  /\ LET cp == IF Alg = "shelf" THEN Extend(copy, extra, seen \ extra) ELSE copy
         keep == DOMAIN cp
     IN /\ removed' = DOMAIN db \ keep
        /\ db' = IF Alg = "mark" THEN Restrict(db, seen) ELSE cp
        /\ reported' = IF Alg = "shelf" THEN missing \ keep ELSE DOMAIN db \ keep
  /\ phase' = "done" /\ UNCHANGED <<todo, seen, copy, extra, missing, garb, commits>>
\* FileStorage2 and SqliteStorage go on while something was committed
Resume ==
  /\ phase = "finish" /\ Alg # "shelf" /\ extra # {} /\ phase' = "copy"
  /\ UNCHANGED <<db, todo, seen, copy, extra, missing, reported, garb, commits, removed>>

Next == Commit \/ Start \/ CopyStep \/ MissingStep \/ Finish \/ Resume
Spec == Init /\ [][Next]_pvars

\* C11: a step of the pack changes nothing that is reachable
PackStep == CopyStep \/ MissingStep \/ Finish \/ Resume \/ Start
KeepsReachable == [][PackStep => \A o \in ReachableIn(db) : o \in DOMAIN db' /\ db'[o] = db[o]]_pvars
\* C12
GarbageGone == phase = "done" => garb \cap DOMAIN db = {}
Reports == phase = "done" => reported = removed
NoDangling == \A o \in DOMAIN db : db[o][2] \subseteq DOMAIN db
=============================================================================
