------------------------------- MODULE DurusTx -------------------------------
(***************************************************************************)
(* Transactions of Durus connections that share one storage.               *)
(*                                                                         *)
(* An object state is a tuple <<class, v, a, b>>: v is a plain value, a and *)
(* b are references (an oid >= 0, a new object's id < -1, or -1 for None).  *)
(* Oid 0 is the root.  Each connection c has                               *)
(*   snap[c]  the committed state it reads from,                           *)
(*   inval[c] the oids changed or removed by others since,                 *)
(*   acc[c]   the oids accessed in the current transaction,                *)
(*   loc[c]   the uncommitted states of changed stored objects,            *)
(*   new[c]   the states of objects that are not stored yet,               *)
(*   mode[c]  "ok", or "conflict" when abort() is required, or "off".      *)
(* Whether a cached copy exists is deliberately not part of the state: a   *)
(* read may use the snapshot, or move it, whichever the guards allow.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Clients

VARIABLES db, snap, inval, acc, loc, new, mode
txvars == <<db, snap, inval, acc, loc, new, mode>>

Refs(st) == {st[3], st[4]} \ {-1}
NoRefs(st) == [st EXCEPT ![3] = -1, ![4] = -1]
EmptyFn == [x \in {} |-> 0]
Restrict(f, S) == [x \in DOMAIN f \cap S |-> f[x]]
ClassOf(st) == st[1]

RECURSIVE ReachFrom(_, _, _)
\* the keys of f reachable from the frontier through references
ReachFrom(f, frontier, seen) ==
  LET fr == (frontier \cap DOMAIN f) \ seen IN
  IF fr = {} THEN seen
  ELSE ReachFrom(f, UNION {Refs(f[x]) : x \in fr}, seen \cup fr)
Reachable(f) == ReachFrom(f, {0}, {})

Changed(c)  == DOMAIN loc[c]
Touched(c)  == acc[c] \cup Changed(c)
Conflict(c) == inval[c] \cap Touched(c) # {}
Knows(c, o) == o \in DOMAIN loc[c] \/ o \in DOMAIN snap[c]
Cur(c, o)   == IF o \in DOMAIN loc[c] THEN loc[c][o] ELSE snap[c][o]

\* ------------------------------------------------------------- bringing up to date
SyncOf(c) == /\ snap'  = [snap EXCEPT ![c] = db]
             /\ inval' = [inval EXCEPT ![c] = {}]
NoSync    == UNCHANGED <<snap, inval>>

\* -------------------------------------------------------------------- reading
\* from the snapshot (or from an uncommitted change)
ReadLocal(c, o) ==
  /\ mode[c] = "ok" /\ Knows(c, o)
  /\ acc' = [acc EXCEPT ![c] = @ \cup {o}]
  /\ NoSync /\ UNCHANGED <<db, loc, new, mode>>
\* moving the snapshot is possible only while nothing used so far is obsolete
ReadMoved(c, o) ==
  /\ mode[c] = "ok" /\ ~Conflict(c) /\ o \in DOMAIN db \cup DOMAIN loc[c]
  /\ acc' = [acc EXCEPT ![c] = @ \cup {o}]
  /\ SyncOf(c) /\ UNCHANGED <<db, loc, new, mode>>
CanReadConflict(c, o) == mode[c] = "ok" /\ (Conflict(c) \/ o \notin DOMAIN db)
ReadConflict(c, o) ==
  /\ CanReadConflict(c, o)
  /\ mode' = [mode EXCEPT ![c] = "conflict"]
  /\ UNCHANGED <<db, snap, inval, acc, loc, new>>

\* -------------------------------------------------------------------- writing
\* (a ghost loads its state first, which is like a read that does not count as one)
WriteLocal(c, o, f, x) ==
  /\ mode[c] = "ok" /\ Knows(c, o)
  /\ loc' = [loc EXCEPT ![c] = (o :> [Cur(c, o) EXCEPT ![f] = x]) @@ @]
  /\ NoSync /\ UNCHANGED <<db, acc, new, mode>>
WriteMoved(c, o, f, x) ==
  /\ mode[c] = "ok" /\ ~Conflict(c) /\ o \in DOMAIN db /\ o \notin DOMAIN loc[c]
  /\ loc' = [loc EXCEPT ![c] = (o :> [db[o] EXCEPT ![f] = x]) @@ @]
  /\ SyncOf(c) /\ UNCHANGED <<db, acc, new, mode>>

Create(c, n, st) ==
  /\ n < -1 /\ n \notin DOMAIN new[c]
  /\ new' = [new EXCEPT ![c] = (n :> st) @@ @]
  /\ UNCHANGED <<db, snap, inval, acc, loc, mode>>
WriteNew(c, n, f, x) ==
  /\ n \in DOMAIN new[c]
  /\ new' = [new EXCEPT ![c][n] = [@ EXCEPT ![f] = x]]
  /\ UNCHANGED <<db, snap, inval, acc, loc, mode>>

\* ------------------------------------------------------------------ committing
\* the new objects that a commit of c has to store
NewReached(c) ==
  ReachFrom(new[c], UNION {Refs(loc[c][o]) : o \in Changed(c)}, {})
\* m maps new object ids to oids
Mapped(st, m) ==
  [st EXCEPT ![3] = IF @ \in DOMAIN m THEN m[@] ELSE @,
             ![4] = IF @ \in DOMAIN m THEN m[@] ELSE @]
FreshFor(c, m) ==
  /\ \A n1, n2 \in DOMAIN m : m[n1] = m[n2] => n1 = n2
  /\ \A n \in DOMAIN m : /\ m[n] > 0 /\ m[n] \notin DOMAIN db
                         \* a client that had a conflict was told what changed, and will forget it
                         /\ \A d \in Clients : mode[d] = "ok" => m[n] \notin inval[d]
Written(c, m) ==
  [o \in Changed(c) |-> Mapped(loc[c][o], m)]
  @@ [o \in {m[n] : n \in DOMAIN m} |->
        Mapped(new[c][CHOOSE n \in DOMAIN m : m[n] = o], m)]
DbAfter(c, m) == Written(c, m) @@ db

CommitEmpty(c) ==
  /\ mode[c] = "ok" /\ Changed(c) = {}
  /\ SyncOf(c) /\ acc' = [acc EXCEPT ![c] = {}]
  /\ UNCHANGED <<db, loc, new, mode>>
CanCommit(c) == mode[c] = "ok" /\ (Changed(c) = {} \/ ~Conflict(c))
CommitOk(c, m) ==
  /\ mode[c] = "ok" /\ Changed(c) # {} /\ ~Conflict(c)
  /\ DOMAIN m = NewReached(c) /\ FreshFor(c, m)
  /\ db' = DbAfter(c, m)
  /\ snap' = [snap EXCEPT ![c] = db']
  /\ inval' = [d \in Clients |-> IF d = c THEN {}
                                 ELSE inval[d] \cup DOMAIN Written(c, m)]
  /\ acc' = [acc EXCEPT ![c] = {}]
  /\ loc' = [loc EXCEPT ![c] = EmptyFn]
  /\ new' = [new EXCEPT ![c] = [n \in DOMAIN @ \ DOMAIN m |-> Mapped(@[n], m)]]
  /\ UNCHANGED mode
CommitConflict(c) ==
  /\ mode[c] = "ok" /\ Changed(c) # {} /\ Conflict(c)
  /\ mode' = [mode EXCEPT ![c] = "conflict"]
  /\ UNCHANGED <<db, snap, inval, acc, loc, new>>
\* the storage may have other reasons to refuse it
CommitRefused(c) ==
  /\ mode[c] = "ok" /\ Changed(c) # {}
  /\ mode' = [mode EXCEPT ![c] = "conflict"]
  /\ UNCHANGED <<db, snap, inval, acc, loc, new>>
\* any other failure: nothing happens
CommitFails(c) == mode[c] = "ok" /\ UNCHANGED txvars

Abort(c) ==
  /\ mode[c] # "off"
  /\ SyncOf(c)
  /\ acc' = [acc EXCEPT ![c] = {}]
  /\ loc' = [loc EXCEPT ![c] = EmptyFn]
  /\ mode' = [mode EXCEPT ![c] = "ok"]
  /\ UNCHANGED <<db, new>>

\* ------------------------------------------------- connections, packing, reopening
Join(c) ==
  /\ mode[c] = "off"
  /\ mode' = [mode EXCEPT ![c] = "ok"]
  /\ SyncOf(c)
  /\ acc' = [acc EXCEPT ![c] = {}] /\ loc' = [loc EXCEPT ![c] = EmptyFn]
  /\ new' = [new EXCEPT ![c] = EmptyFn] /\ UNCHANGED db
Leave(c) ==
  /\ mode[c] # "off"
  /\ mode' = [mode EXCEPT ![c] = "off"]
  /\ UNCHANGED <<db, snap, inval, acc, loc, new>>
Pack ==
  /\ db' = Restrict(db, Reachable(db))
  /\ inval' = [d \in Clients |-> inval[d] \cup (DOMAIN db \ DOMAIN db')]
  /\ UNCHANGED <<snap, acc, loc, new, mode>>

\* ------------------------------------------------------------------- properties
TxTypeOK ==
  /\ 0 \in DOMAIN db
  /\ \A c \in Clients : mode[c] \in {"ok", "conflict", "off"}
\* everything that differs from a connection's view is known to be obsolete
InvalidationComplete ==
  \A c \in Clients : mode[c] # "off" =>
    \A o \in DOMAIN snap[c] \cup DOMAIN db :
      (o \in DOMAIN snap[c] /\ o \in DOMAIN db /\ snap[c][o] = db[o]) \/ o \in inval[c]
\* no stored reference is to something that is not stored
NoDangling ==
  \A o \in DOMAIN db : \A r \in Refs(db[o]) : r \in DOMAIN db
==============================================================================
