--------------------------- MODULE DurusBTreeGen ---------------------------
(* One way to build every tree that can be reached: TLC keeps the first one  *)
(* because the view leaves out how the tree was built.                       *)
EXTENDS DurusBTree, Json
VARIABLE ops
gvars == <<vars, ops>>
GInit == Init /\ ops = <<>>
GNext == \E x \in 1..Keys : \/ DoInsert(x) /\ ops' = Append(ops, x)
                            \/ x \in in /\ DoDelete(x) /\ ops' = Append(ops, -x)
GSpec == GInit /\ [][GNext]_gvars
View == vars
Emit == PrintT(<<"GEN", ToJson(ops)>>)
=============================================================================
