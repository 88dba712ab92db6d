---------------------------- MODULE DurusLockGen ----------------------------
(* Behaviours of DurusLock as schedules for real processes.                  *)
EXTENDS DurusLock, Json
CONSTANT GenLen
VARIABLE ops
gvars == <<vars, ops>>
GInit == Init /\ ops = <<>>
Say(p, x) == ops' = Append(ops, <<p, x>>)
Ended == ops # <<>> /\ ops[Len(ops)][1] = 0
GNext ==
  IF Len(ops) < GenLen /\ ~Ended
  THEN \E p \in Procs :
         \/ Start(p) /\ Say(p, "open")
         \/ (Open(p) \/ Lock(p) \/ Rename(p) \/ Relock(p) \/ CloseOld(p)) /\ Say(p, "go")
         \/ Commit(p) /\ Say(p, "commit")
         \/ Pack(p) /\ Say(p, "pack")
         \/ Link(p) /\ Say(p, "step")
         \/ Close(p) /\ Say(p, "close")
         \/ Kill(p) /\ Say(p, "kill")
  ELSE /\ ~Ended /\ PrintT(<<"GEN", ToJson(ops)>>) /\ Say(0, "END") /\ UNCHANGED vars
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
