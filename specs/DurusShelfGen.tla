--------------------------- MODULE DurusShelfGen ---------------------------
(* One path to every reachable state, and every action from it. *)
EXTENDS DurusShelf, Json
VARIABLES path, first
Rows(f) == {<<n, f[n]>> : n \in DOMAIN f}
GInit == Init /\ path = <<>> /\ first = Rows(s.ini)
GNext == \E c \in Acts : s' = Do(s, c) /\ path' = Append(path, c) /\ first' = first
GSpec == GInit /\ [][GNext]_<<s, path, first>>
View == s
Emit == \A c \in Acts : PrintT(<<"GEN", ToJson([first |-> first, path |-> Append(path, c)])>>)
=============================================================================
