--------------------------- MODULE DurusServerMC ---------------------------
(* DurusServer with the clients' view of the records, checked exhaustively. *)
EXTENDS DurusServer
CONSTANTS MaxOid, MaxCommits
VARIABLES view, ver, last
mcvars == <<svvars, view, ver, last>>
Oids == 0..MaxOid
Init == /\ db = (0 :> <<0, {}>>) /\ up = {} /\ inval = [c \in Clients |-> {}]
        /\ alloc = [c \in Clients |-> {}] /\ gone = {} /\ packing = "no" /\ lo = 0 /\ hi = 0
        /\ view = [c \in Clients |-> [x \in {} |-> 0]] /\ ver = 0 /\ last = "init"
Forget(c, oids) == view' = [view EXCEPT ![c] = Restrict(@, DOMAIN @ \ oids)]
Recs(c) == {[x \in changed \cup fresh |-> IF x \in fresh THEN <<ver + 1, {}>> ELSE <<ver + 1, refs>>] :
              changed \in {{o} : o \in DOMAIN db}, fresh \in {s \in SUBSET alloc[c] : Cardinality(s) <= 1},
              refs \in {r \in SUBSET Oids : Cardinality(r) <= 2}}
Good(c) == {r \in Recs(c) : \A o \in DOMAIN r : r[o][2] \subseteq (DOMAIN db \cup DOMAIN r)}
Next ==
  \/ \E c \in Clients \ up : Connect(c) /\ view' = [view EXCEPT ![c] = [x \in {} |-> 0]] /\ last' = "connect" /\ UNCHANGED ver
  \/ \E c \in up :
       \/ Drop(c) /\ last' = "drop" /\ view' = [view EXCEPT ![c] = [x \in {} |-> 0]] /\ UNCHANGED ver
       \/ \E o \in Oids : Alloc(c, {o}) /\ last' = "alloc" /\ UNCHANGED <<view, ver>>
       \/ \E o \in DOMAIN db \ inval[c] :
            /\ view' = [view EXCEPT ![c] = (o :> db[o][1]) @@ @] /\ last' = "load"
            /\ UNCHANGED <<svvars, ver>>
       \/ Sync(c) /\ Forget(c, Told(c)) /\ last' = "sync" /\ UNCHANGED ver
       \/ /\ ver < MaxCommits
          /\ \E r \in Good(c) :
               /\ Legal(c, r) /\ ~Foreign(c, r) /\ DOMAIN view[c] \cap Told(c) = {}
               /\ Commit(c, r, <<0, 0>>) /\ ver' = ver + 1 /\ last' = "commit"
               /\ view' = [view EXCEPT ![c] = [x \in DOMAIN r |-> ver + 1] @@ @]
       \/ /\ ver < MaxCommits
          /\ \E r \in Good(c) : /\ Legal(c, r) /\ ~Foreign(c, r) /\ CommitDrop(c, r, <<0, 0>>)
                                /\ ver' = ver + 1 /\ last' = "commit"
                                /\ view' = [view EXCEPT ![c] = [x \in {} |-> 0]]
       \/ RefusedDrop(c, TRUE) /\ last' = "refused" /\ view' = [view EXCEPT ![c] = [x \in {} |-> 0]] /\ UNCHANGED ver
       \/ StartPack("client") /\ last' = "pack" /\ UNCHANGED <<view, ver>>
  \/ /\ packing # "no"
     /\ FinishPack(Restrict(db, Reachable(db))) /\ last' = "finish" /\ UNCHANGED <<view, ver>>
Spec == Init /\ [][Next]_mcvars

\* C23/C01: whatever a client holds that is out of date, it will be told of
Coherent == \A c \in up : \A o \in DOMAIN view[c] :
              (o \notin DOMAIN db \/ db[o][1] # view[c][o]) => o \in Told(c)
\* C08: no oid is handed out twice, or while somebody may hold an object for it
Disjoint == \A c \in up : /\ alloc[c] \cap DOMAIN db = {}
                          /\ \A d \in up \ {c} : alloc[c] \cap alloc[d] = {}
NoReuse == \A c, d \in up : alloc[c] \cap DOMAIN view[d] = {}
\* only complete valid commits and packs change the records; packs keep what is reachable
Atomic == [][db' # db => last' \in {"commit", "finish"}]_mcvars
PackKeeps == [][last' = "finish" => \A o \in Reachable(db) : o \in DOMAIN db' /\ db'[o] = db[o]]_mcvars
=============================================================================
