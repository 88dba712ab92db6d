--------------------------- MODULE DurusToolsGen ---------------------------
(* Every small database. *)
EXTENDS DurusTools, Json
GNext == FALSE /\ UNCHANGED vars
GSpec == Init /\ [][GNext]_vars
Emit == PrintT(<<"GEN", ToJson([rows |-> [o \in Ids |-> <<src[o].cls, src[o].refs>>]])>>)
=============================================================================
