--------------------------- MODULE DurusLifeGen ---------------------------
(* One path to every reachable state, and every action from it. *)
EXTENDS DurusLife, Json
VARIABLE path
GInit == Init /\ path = <<>>
GNext == \E c \in Acts : s' = Do(s, c) /\ path' = Append(path, c)
GSpec == GInit /\ [][GNext]_<<s, path>>
View == s
Emit == \A c \in Acts : PrintT(<<"GEN", ToJson(Append(path, c))>>)
=============================================================================
