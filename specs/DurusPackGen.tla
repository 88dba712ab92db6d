---------------------------- MODULE DurusPackGen ----------------------------
(* Behaviours of DurusPack as scripts for the real storages; with a        *)
(* weakened design only those in which it loses an object.                 *)
EXTENDS DurusPack, Json, SequencesExt
CONSTANT GenLen
VARIABLES ops, lost
gvars == <<pvars, ops, lost>>
Graph(d) == SetToSeq({<<o, SetToSeq(d[o][2])>> : o \in DOMAIN d})
GInit == Init /\ lost = FALSE /\ ops = <<<<"G", Graph(db)>>>>
Changed == CHOOSE o \in DOMAIN db : db'[o] # db[o]
GNext ==
  IF Len(ops) < GenLen /\ phase # "done"
  THEN \/ Commit /\ \E o \in DOMAIN db : db'[o][1] # db[o][1] /\
            ops' = Append(ops, <<"ST", o, SetToSeq(db'[o][2]), SetToSeq(DOMAIN db' \ DOMAIN db)>>)
          /\ UNCHANGED lost
       \/ Start /\ ops' = Append(ops, <<"PB">>) /\ UNCHANGED lost
       \/ (CopyStep \/ MissingStep \/ Finish \/ Resume) /\ ops' = Append(ops, <<"PS">>)
          /\ lost' = (lost \/ \E o \in ReachableIn(db) : o \notin DOMAIN db' \/ db'[o] # db[o])
  ELSE /\ ops # <<>> /\ Weak = "" /\ PrintT(<<"GEN", ToJson(ops)>>)
       /\ ops' = <<>> /\ UNCHANGED <<pvars, lost>>
\* one behaviour for each way to lose something
View == <<pvars, lost>>
EmitLost == (lost /\ phase = "done" /\ ops # <<>>) => PrintT(<<"GEN", ToJson(ops)>>)
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
