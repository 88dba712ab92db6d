----------------------------- MODULE DurusLogGen -----------------------------
(* Behaviours of DurusLog as scripts: commits, steps of packs, crashes.      *)
EXTENDS DurusLog, Json
CONSTANT GenLen
VARIABLE ops
gvars == <<vars, ops>>
GInit == Init /\ ops = <<>>
Say(x) == ops' = Append(ops, x)
Ended == ops # <<>> /\ ops[Len(ops)] = <<"END">>
GNext ==
  IF Len(ops) < GenLen /\ ~Ended /\ (next <= MaxCommits \/ crashes < MaxCrashes)
  THEN \/ Begin /\ Say(<<"C", Recs>>)
       \/ (Record \/ Patch \/ Ack) /\ UNCHANGED ops
       \/ PackStart /\ Say(<<"PB">>)
       \/ (PackCopy \/ PackSwap) /\ Say(<<"PS">>)
       \/ (PackTail \/ PackSync \/ PackLink) /\ UNCHANGED ops
       \/ crashes < MaxCrashes /\ next > 1 /\ Crash /\ Say(<<"X">>)
  ELSE /\ ops # <<>> /\ ~Ended /\ PrintT(<<"GEN", ToJson(ops)>>) /\ Say(<<"END">>) /\ UNCHANGED vars
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
