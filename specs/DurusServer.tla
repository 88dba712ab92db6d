----------------------------- MODULE DurusServer -----------------------------
(***************************************************************************)
(* The storage server at the level of its protocol: several clients,        *)
(* allocation of oids, loads, two-phase commits that may be malformed or    *)
(* cut off, sync, and packs started by a client or by the volume of         *)
(* commits.                                                                *)
(*   db        oid -> <<version, set of referenced oids>>                   *)
(*   up        clients that are connected                                   *)
(*   inval[c]  oids c has to be told of                                     *)
(*   alloc[c]  oids handed out to c and not used yet                        *)
(*   gone      oids removed by a pack that sync() has not distributed yet   *)
(*   packing   "no", "client" or "auto";  lo, hi: bounds of the bytes       *)
(*             committed since the last pack                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Clients
VARIABLES db, up, inval, alloc, gone, packing, lo, hi
svvars == <<db, up, inval, alloc, gone, packing, lo, hi>>

RECURSIVE Reach(_, _, _)
Reach(d, frontier, acc) ==
  LET fr == (frontier \cap DOMAIN d) \ acc IN
  IF fr = {} THEN acc ELSE Reach(d, UNION {d[o][2] : o \in fr}, acc \cup fr)
Reachable(d) == Reach(d, {0}, {})
Restrict(f, S) == [x \in DOMAIN f \cap S |-> f[x]]

Connect(c) == /\ c \notin up /\ up' = up \cup {c}
              /\ inval' = [inval EXCEPT ![c] = {}] /\ alloc' = [alloc EXCEPT ![c] = {}]
              /\ UNCHANGED <<db, gone, packing, lo, hi>>
Drop(c) == /\ up' = up \ {c} /\ inval' = [inval EXCEPT ![c] = {}] /\ alloc' = [alloc EXCEPT ![c] = {}]
           /\ UNCHANGED <<db, gone, packing, lo, hi>>
\* an oid may be handed out if nobody can have an object for it
Free(o) == /\ o \notin DOMAIN db /\ o \notin gone
           /\ \A c \in up : o \notin alloc[c] /\ o \notin inval[c]
Alloc(c, oids) == /\ \A o \in oids : Free(o)
                  /\ alloc' = [alloc EXCEPT ![c] = @ \cup oids]
                  /\ UNCHANGED <<db, up, inval, gone, packing, lo, hi>>
\* what c is told when it syncs or starts a commit
Told(c) == inval[c] \cup gone
Distribute(c) == /\ inval' = [d \in Clients |-> IF d = c THEN {} ELSE IF d \in up THEN inval[d] \cup gone ELSE {}]
                 /\ gone' = {}
Sync(c) == Distribute(c) /\ UNCHANGED <<db, up, alloc, packing, lo, hi>>
\* the first phase of a commit informs the client; then its data is applied
Legal(c, recs) == \A o \in DOMAIN recs : o \in DOMAIN db \/ o \in alloc[c]
Foreign(c, recs) == \E o \in DOMAIN recs : \E d \in up \ {c} : o \in alloc[d]
Commit(c, recs, bytes) ==
  /\ db' = recs @@ db
  /\ inval' = [d \in Clients |-> IF d = c THEN {}
                                 ELSE IF d \in up THEN inval[d] \cup gone \cup DOMAIN recs ELSE {}]
  /\ gone' = {}
  /\ alloc' = [alloc EXCEPT ![c] = @ \ DOMAIN recs]
  /\ lo' = lo + bytes[1] /\ hi' = hi + bytes[2]
  /\ UNCHANGED <<up, packing>>
\* the client disappears after its commit was applied
CommitDrop(c, recs, bytes) ==
  /\ db' = recs @@ db
  /\ up' = up \ {c}
  /\ inval' = [d \in Clients |-> IF d \in up \ {c} THEN inval[d] \cup gone \cup DOMAIN recs ELSE {}]
  /\ gone' = {} /\ alloc' = [alloc EXCEPT ![c] = {}]
  /\ lo' = lo + bytes[1] /\ hi' = hi + bytes[2] /\ UNCHANGED packing
\* refused: nothing is applied, the client is dropped (it may have been told already)
RefusedDrop(c, distributed) ==
  /\ up' = up \ {c}
  /\ IF distributed
     THEN /\ inval' = [d \in Clients |-> IF d \in up \ {c} THEN inval[d] \cup gone ELSE {}]
          /\ gone' = {}
     ELSE inval' = [inval EXCEPT ![c] = {}] /\ UNCHANGED gone
  /\ alloc' = [alloc EXCEPT ![c] = {}] /\ UNCHANGED <<db, packing, lo, hi>>
\* hi counts from the start of the last pack, lo from its end
StartPack(who) == /\ packing = "no" /\ packing' = who /\ lo' = 0 /\ hi' = 0
                  /\ UNCHANGED <<db, up, inval, alloc, gone>>
PackEffect(d) == /\ DOMAIN d \subseteq DOMAIN db /\ Reachable(db) \subseteq DOMAIN d
                 /\ db' = d /\ gone' = gone \cup (DOMAIN db \ DOMAIN d)
FinishPack(d) == /\ packing # "no" /\ packing' = "no" /\ lo' = 0
                 /\ PackEffect(d) /\ UNCHANGED <<up, inval, alloc, hi>>
=============================================================================
