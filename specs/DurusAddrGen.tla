---------------------------- MODULE DurusAddrGen ----------------------------
(* Every behaviour of a length (Mode "all"), or random ones. *)
EXTENDS DurusAddr, Json
CONSTANTS Len0
VARIABLE ops
GKind == <<"unix", "tcp">>
GInit == Init /\ ops = <<>>
Step(op) == ops' = Append(ops, op)
Idle == {s \in Servers : ~Running(s)}
GNext ==
  /\ Len(ops) < Len0
  /\ \/ \E s \in Servers, a \in Addrs : /\ ~Running(s) /\ \A t \in Idle : s <= t
                                        /\ (Start(s, a) \/ (Occupied(a) /\ StartRefused(s, a)))
                                        /\ Step(<<"START", s, a>>)
     \/ \E a \in Addrs : StartHalf(1, a) /\ Idle # {} /\ Step(<<"HALF", CHOOSE s \in Idle : TRUE, a>>)
     \/ \E a \in Addrs : Stop(a) /\ Step(<<"STOP", at[a], a>>)
     \/ \E a \in Addrs : Kill(a) /\ Step(<<"KILL", at[a], a>>)
     \/ \E a \in Addrs, w \in {"full", "empty", "dir"} : place[a] # w /\ Put(a, w) /\ Step(<<"PUT", a, w>>)
     \/ \E a \in Addrs : place[a] # Free /\ Put(a, Free) /\ Step(<<"PUT", a, Free>>)
GSpec == GInit /\ [][GNext]_<<avars, ops>>
Emit == Len(ops) = Len0 => PrintT(<<"GEN", ToJson(ops)>>)
=============================================================================
