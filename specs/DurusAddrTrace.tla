--------------------------- MODULE DurusAddrTrace ---------------------------
(***************************************************************************)
(* Judges traces of real servers and clients (drivers/ad.py).  After every  *)
(* event e.now tells what is at every address: <<kind of thing, who answers *)
(* a client (0 nobody)>>.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, stop, place, at
tvars == <<tid, l, stop, place, at>>
Ev == Traces[tid].ev
E == Ev[l]
Kinds == Traces[tid].ev[1].kinds
A == INSTANCE DurusAddr WITH Addrs <- 1..8, Servers <- 1..9, KindOf <- [a \in 1..8 |-> "unix"]
TraceInit == tid \in 1..Len(Traces) /\ l = 2 /\ stop = FALSE
             /\ place = [a \in 1..Len(Traces[tid].ev[1].kinds) |-> "free"] /\ at = [a \in 1..Len(Traces[tid].ev[1].kinds) |-> 0]
Ok(b, clause) == IF b THEN "" ELSE clause
First(s) == IF \E i \in DOMAIN s : s[i] # ""
            THEN s[CHOOSE i \in DOMAIN s : s[i] # "" /\ \A j \in 1..(i-1) : s[j] = ""] ELSE ""
\* what place[a] and at[a] are after e
After(e) ==
  CASE e.op = "START" /\ e.res = "ok" -> <<[place EXCEPT ![e.a] = "live"], [at EXCEPT ![e.a] = e.s]>>
    [] e.op = "HALF" /\ A!MayStart(e.a) -> <<[place EXCEPT ![e.a] = "stale"], at>>
    [] e.op = "STOP" -> <<[place EXCEPT ![e.a] = "free"], [at EXCEPT ![e.a] = 0]>>
    [] e.op = "KILL" -> <<[place EXCEPT ![e.a] = IF Kinds[e.a] = "unix" THEN "stale" ELSE "free"], [at EXCEPT ![e.a] = 0]>>
    [] e.op = "PUT" -> <<[place EXCEPT ![e.a] = e.what], at>>
    [] e.op = "WAIT" /\ e.s > 0 /\ e.start = "ok" -> <<[place EXCEPT ![e.a] = "live"], [at EXCEPT ![e.a] = e.s]>>
    [] OTHER -> <<place, at>>
\* the thing seen at the address of a place
Thing(a, p) == CASE Kinds[a] # "unix" -> "none"
                 [] p[a] = "free" -> "none"
                 [] p[a] \in {"live", "stale"} -> "socket"
                 [] OTHER -> p[a]
NowClause(e) ==
  LET p == After(e)[1]  w == After(e)[2] IN
  First(<<Ok(\A a \in DOMAIN Kinds : e.now[a][2] # -1, e.op \o ": connecting ended with another error"),
          Ok(\A a \in DOMAIN Kinds : a # e.a => e.now[a] = <<Thing(a, p), w[a]>>, e.op \o ": something happened at another address"),
          Ok(e.now[e.a][2] = w[e.a], e.op \o IF w[e.a] > 0 THEN ": the server cannot be reached" ELSE ": somebody answers"),
          Ok(e.now[e.a][1] = Thing(e.a, p), e.op \o ": wrong thing at the address"),
          Ok(e.um = e.um0, e.op \o ": the umask of the process changed")>>)
StartClause(e) ==
  IF e.res # "ok"
  THEN First(<<Ok(~A!MustStart(e.a), "the server did not start: " \o e.res),
               Ok(e.os = 1 \/ ~A!Occupied(e.a), "starting ended with another error: " \o e.res)>>)
  ELSE First(<<Ok(A!MayStart(e.a), "a server started at the address of something else"),
               Ok(Kinds[e.a] = "unix" => e.mode = A!ModeUnder(e.um2), "wrong permissions of the socket"),
               Ok(Kinds[e.a] = "unix" => e.owner = e.owner2, "wrong owner of the socket"),
               Ok(Kinds[e.a] = "unix" => e.group = e.group2, "wrong group of the socket")>>)
InheritClause(e) ==
  LET good == e.pid = "own" /\ e.fds = "1"
      own == e.pid # "own" \/ e.fds = "0"
  IN First(<<
    Ok(good => e.res = "ok", "a server with an inherited socket did not start: " \o e.res),
    Ok(own => e.res = "ok", "a server did not start: " \o e.res),
    Ok(~good /\ ~own => e.res = "OSError", "a wrong environment was accepted: " \o e.res),
    Ok(e.res # "ok" \/ e.atinh = (IF good THEN 1 ELSE 0), IF good THEN "nobody answers at the inherited socket" ELSE "somebody answers at a socket that was not meant"),
    Ok(e.res # "ok" \/ e.atown = (IF good THEN 0 ELSE 1), IF good THEN "somebody answers at the other address" ELSE "nobody answers at the address"),
    Ok(e.res # "ok" \/ e.show = (IF good THEN A!Show(e.inh[1], e.inh[2], e.inh[3], e.inh[4], <<>>)
                                 ELSE A!Show(e.own[1], e.own[2], e.own[3], e.own[4], e.own[5])), "the address is shown wrongly: " \o e.show),
    Ok(e.left = 1, "the inherited socket file was removed"),
    Ok(e.ownleft = 0, "the socket file was left behind")>>)
Clause(e) ==
  CASE e.op = "HANG" -> "no answer: " \o e.what
    [] e.op = "ERR" -> "driver: " \o e.what
    [] e.op = "START" -> First(<<StartClause(e), NowClause(e)>>)
    [] e.op = "HALF" -> First(<<Ok(e.res # "ok", "a server with an unknown owner started"), NowClause(e)>>)
    [] e.op = "WAIT" ->
         First(<<Ok(e.s > 0 => e.start = "ok", "the server did not start: " \o e.start),
                 Ok(A!Answer(e.a) > 0 => e.res = "ok" /\ e.sleeps = 0, "waiting for a server that runs: " \o e.res),
                 Ok(A!Answer(e.a) = 0 /\ e.s > 0 => e.res = "ok" /\ e.sleeps = e.when, "waiting did not end when the server was there: " \o e.res),
                 Ok(A!Answer(e.a) = 0 /\ e.s = 0 => e.res = "SystemExit" /\ e.sleeps = e.tries, "waiting in vain: " \o e.res),
                 NowClause(e)>>)
    [] e.op = "SHOW" -> First(<<Ok(e.res = "ok", "showing an address failed: " \o e.res),
                                Ok(e.show = A!Show(Kinds[e.a], e.name, e.port, e.v6, e.file), "an address is shown wrongly: " \o e.show), NowClause(e)>>)
    [] e.op = "INHERIT" -> InheritClause(e)
    [] OTHER -> First(<<Ok(e.res = "ok", e.op \o ": " \o e.res), NowClause(e)>>)
TraceStep ==
  /\ ~stop
  /\ IF l > Len(Ev)
     THEN PrintT(<<"DONE", tid, l, "">>) /\ stop' = TRUE /\ UNCHANGED <<tid, l, place, at>>
     ELSE LET cl == Clause(E) IN
          IF cl # "" THEN PrintT(<<"BAD", tid, l, cl>>) /\ stop' = TRUE /\ UNCHANGED <<tid, l, place, at>>
          ELSE place' = After(E)[1] /\ at' = After(E)[2] /\ l' = l + 1 /\ UNCHANGED <<tid, stop>>
TraceSpec == TraceInit /\ [][TraceStep]_tvars
=============================================================================
