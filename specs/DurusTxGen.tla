----------------------------- MODULE DurusTxGen -----------------------------
(* Behaviours of DurusTxMC as operation sequences, to be replayed on the    *)
(* real code: with TLC -simulate (long, random) or exhaustively (short).    *)
EXTENDS DurusTxMC, Json, SequencesExt
CONSTANTS GenLen, GenMode
VARIABLE ops
gvars == <<mcvars, ops>>

GInit == Init /\ ops = <<>>
Op(x) == ops' = Append(ops, x)
\* a link or value written is visible as the difference
Lit(c, o) == IF loc'[c][o][2] # Cur(c, o)[2] THEN <<"W", c, o, 2, loc'[c][o][2]>>
             ELSE <<"W", c, o, 3, loc'[c][o][3]>>
First1 == ops # <<>>
GNext ==
  IF Len(ops) < GenLen
  THEN \/ \E c \in Clients :
            /\ (First1 \/ c = 1)      \* clients are interchangeable
            /\ \/ \E o \in Oids : DoRead(c, o) /\ Op(<<"R", c, o>>)
               \/ \E o \in Oids : DoWrite(c, o) /\ Op(<<"W", c, o, 2, 0>>)
               \/ GenMode = "random" /\ \E o \in Oids : DoLink(c, o) /\ Op(<<"W", c, o, 3, loc'[c][o][3]>>)
               \/ GenMode = "random" /\ DoCreate(c) /\ Op(<<"N", c, -2>>)
               \/ /\ First1 /\ DoCommit(c)
                  /\ Op(<<"C", c, IF db' # db THEN SetToSeq(DOMAIN db' \ DOMAIN db) ELSE <<>> >>)
               \/ DoAbort(c) /\ First1 /\ (acc[c] # {} \/ loc[c] # EmptyFn \/ inval[c] # {}) /\ Op(<<"A", c>>)
               \/ GenMode = "random" /\ DoForget(c) /\ Op(<<"A", c>>)
       \/ DoPack /\ Op(<<"P", 0>>)
  ELSE /\ Len(ops) = GenLen
       /\ PrintT(<<"GEN", ToJson(ops)>>)
       /\ ops' = Append(ops, <<"END", 0>>)
       /\ UNCHANGED mcvars
GSpec == GInit /\ [][GNext]_gvars
\* one representative per sequence of operations is enough
OpsOnly == ops
=============================================================================
