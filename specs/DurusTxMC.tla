----------------------------- MODULE DurusTxMC -----------------------------
(* Exhaustive exploration of DurusTx with small constants and with the      *)
(* history variables that the properties C01, C02 and C05 talk about.       *)
EXTENDS DurusTx
CONSTANTS MaxCommits, MaxOid, MaxStamp, WithNew, WithPack
VARIABLES hist,    \* all committed states
          reads,   \* reads[c]: pairs <<o, st>> of committed states used by the transaction
          stamp,   \* source of fresh values
          verdict  \* "ok" or the property a step broke
mcvars == <<txvars, hist, reads, stamp, verdict>>

Init ==
  /\ db = (0 :> <<"P", 0, 1, -1>>) @@ (1 :> <<"P", 1, -1, -1>>)
  /\ snap = [c \in Clients |-> db] /\ inval = [c \in Clients |-> {}]
  /\ acc = [c \in Clients |-> {}] /\ loc = [c \in Clients |-> EmptyFn]
  /\ new = [c \in Clients |-> EmptyFn] /\ mode = [c \in Clients |-> "ok"]
  /\ hist = <<db>> /\ reads = [c \in Clients |-> {}] /\ stamp = 2 /\ verdict = "ok"

Oids == 0..MaxOid
HKeep == UNCHANGED <<hist, stamp, verdict>>

DoRead(c, o) ==
  \/ /\ o \notin DOMAIN loc[c] /\ ReadLocal(c, o)
     /\ reads' = [reads EXCEPT ![c] = @ \cup {<<o, snap[c][o]>>}] /\ HKeep
  \/ /\ o \notin DOMAIN loc[c] /\ o \in inval[c] /\ ReadMoved(c, o)
     /\ reads' = [reads EXCEPT ![c] = @ \cup {<<o, db[o]>>}] /\ HKeep
  \/ /\ o \in inval[c] /\ ReadConflict(c, o) /\ UNCHANGED reads /\ HKeep
\* writes: a fresh value, or linking an object of the transaction, or unlinking
DoWrite(c, o) ==
  /\ o \notin DOMAIN loc[c] /\ stamp < MaxStamp
  /\ \/ WriteLocal(c, o, 2, stamp)
     \/ o \in inval[c] /\ WriteMoved(c, o, 2, stamp)
  /\ stamp' = stamp + 1 /\ UNCHANGED <<hist, reads, verdict>>
DoLink(c, o) ==
  \E x \in (Touched(c) \cup DOMAIN new[c] \cup {-1}) :
    /\ stamp < MaxStamp /\ Knows(c, o) /\ Cur(c, o)[3] # x
    /\ WriteLocal(c, o, 3, x) /\ stamp' = stamp + 1 /\ UNCHANGED <<hist, reads, verdict>>
DoCreate(c) ==
  /\ WithNew /\ DOMAIN new[c] = {} /\ stamp < MaxStamp
  /\ Create(c, -2, <<"P", stamp, -1, -1>>)
  /\ stamp' = stamp + 1 /\ UNCHANGED <<hist, reads, verdict>>
DoCommit(c) ==
  /\ Len(hist) <= MaxCommits
  /\ \/ CommitEmpty(c) /\ UNCHANGED <<hist, stamp, verdict>> /\ reads' = [reads EXCEPT ![c] = {}]
     \/ \E m \in [NewReached(c) -> Oids] :
          /\ CommitOk(c, m) /\ hist' = Append(hist, db')
          /\ verdict' = IF \A r \in reads[c] : r[1] \in DOMAIN db /\ db[r[1]] = r[2]
                        THEN verdict ELSE "not serializable"
          /\ reads' = [reads EXCEPT ![c] = {}] /\ UNCHANGED stamp
     \/ CommitConflict(c) /\ UNCHANGED <<hist, reads, stamp, verdict>>
     \/ CommitRefused(c) /\ UNCHANGED <<hist, reads, stamp, verdict>>
DoAbort(c) ==
  /\ Abort(c) /\ reads' = [reads EXCEPT ![c] = {}]
  /\ new' = new /\ HKeep
\* after a pack or an abort, references kept by new objects may be obsolete: forget them
DoForget(c) ==
  /\ acc[c] = {} /\ loc[c] = EmptyFn /\ DOMAIN new[c] # {}
  /\ new' = [new EXCEPT ![c] = EmptyFn]
  /\ UNCHANGED <<db, snap, inval, acc, loc, mode, hist, reads, stamp, verdict>>
DoPack ==
  /\ WithPack /\ DOMAIN db # Reachable(db) /\ Pack
  /\ hist' = Append(hist, db') /\ UNCHANGED <<reads, stamp, verdict>>

Next == \/ \E c \in Clients : \/ \E o \in Oids : DoRead(c, o) \/ DoWrite(c, o) \/ DoLink(c, o)
                              \/ DoCreate(c) \/ DoCommit(c) \/ DoAbort(c) \/ DoForget(c)
        \/ DoPack
Spec == Init /\ [][Next]_mcvars

\* C01: what a transaction has read belongs to one committed state
OneState ==
  \A c \in Clients : mode[c] = "ok" =>
    \E i \in 1..Len(hist) : \A r \in reads[c] : r[1] \in DOMAIN hist[i] /\ hist[i][r[1]] = r[2]
\* C02
Serializable == verdict = "ok"
\* C05: a client that nobody interferes with is never refused
NoSpurious == \A c \in Clients : inval[c] = {} => CanCommit(c) \/ mode[c] # "ok"
\* C03/C04 hold for every step
UpToDate == [][\A c \in Clients :
    (Abort(c) \/ CommitEmpty(c)) => snap'[c] = db' /\ loc'[c] = EmptyFn /\ inval'[c] = {}]_mcvars
CommitExact == [][\A c \in Clients :
    (db' # db /\ Changed(c) # {} /\ loc'[c] = EmptyFn) =>
      \A o \in DOMAIN db : o \notin Changed(c) => db'[o] = db[o]]_mcvars
Bound == Len(hist) <= MaxCommits + 1
=============================================================================
