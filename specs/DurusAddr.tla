----------------------------- MODULE DurusAddr -----------------------------
(***************************************************************************)
(* Where servers listen.  An address is the path of a Unix domain socket   *)
(* ("unix"), an abstract Unix name ("abs"), or a host and port ("tcp").     *)
(*   place[a]  what is at the address:                                      *)
(*      "free"   nothing,                                                   *)
(*      "live"   a server that listens, at[a] says which one,               *)
(*      "stale"  the socket file of a server that was killed (unix only),   *)
(*      "full"   an ordinary file with content, "empty" one without,        *)
(*      "dir"    a directory                                                *)
(* A server may take an address if nobody uses it and nothing is lost.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Addrs, Servers, KindOf
VARIABLES place, at

avars == <<place, at>>
Free == "free"
Init == place = [a \in Addrs |-> Free] /\ at = [a \in Addrs |-> 0]
Running(s) == \E a \in Addrs : place[a] = "live" /\ at[a] = s
Occupied(a) == place[a] \in {"live", "full", "dir"}
\* an empty file is nothing that could get lost, it may be replaced or not
MayStart(a) == ~Occupied(a)
MustStart(a) == place[a] \in {Free, "stale"}

Start(s, a) == /\ MayStart(a) /\ ~Running(s)
               /\ place' = [place EXCEPT ![a] = "live"] /\ at' = [at EXCEPT ![a] = s]
StartRefused(s, a) == ~MustStart(a) /\ UNCHANGED avars
\* bound, but then its owner cannot be set: the file remains
StartHalf(s, a) == /\ MayStart(a) /\ KindOf[a] = "unix"
                   /\ place' = [place EXCEPT ![a] = "stale"] /\ UNCHANGED at
Stop(a) == /\ place[a] = "live"
           /\ place' = [place EXCEPT ![a] = Free] /\ at' = [at EXCEPT ![a] = 0]
Kill(a) == /\ place[a] = "live"
           /\ place' = [place EXCEPT ![a] = IF KindOf[a] = "unix" THEN "stale" ELSE Free]
           /\ at' = [at EXCEPT ![a] = 0]
\* somebody else changes what is at the path
Put(a, what) == /\ KindOf[a] = "unix" /\ place[a] # "live"
                /\ place' = [place EXCEPT ![a] = what] /\ UNCHANGED at
\* who answers at a (0 is nobody)
Answer(a) == IF place[a] = "live" THEN at[a] ELSE 0

Next == \/ \E s \in Servers, a \in Addrs : Start(s, a) \/ StartRefused(s, a) \/ StartHalf(s, a)
        \/ \E a \in Addrs : Stop(a) \/ Kill(a) \/ \E w \in {Free, "full", "empty", "dir"} : Put(a, w)
Spec == Init /\ [][Next]_avars
OnePlace == \A s \in Servers : Cardinality({a \in Addrs : Answer(a) = s}) <= 1
OnlyUnixLeftovers == \A a \in Addrs : KindOf[a] # "unix" => place[a] \in {Free, "live"}
\* a server takes nothing away: not a live server's address, not a file
NothingTaken == [][\A s \in Servers, a \in Addrs :
                     (Start(s, a) \/ StartRefused(s, a) \/ StartHalf(s, a)) /\ Occupied(a) => UNCHANGED <<place[a], at[a]>>]_avars

\* ----------------------------------------------------------------- what is shown
Rwx == <<"---", "--x", "-w-", "-wx", "r--", "r-x", "rw-", "rwx">>
\* mode: three digits; what the file of a new socket gets under a umask
ModeUnder(um) == <<7 - um[1], 7 - um[2], 7 - um[3]>>
ShowMode(m) == Rwx[m[1] + 1] \o Rwx[m[2] + 1] \o Rwx[m[3] + 1]
\* k: kind, name: path, name or host, port; file: "" or the mode, owner and group of what is at the path
Show(k, name, port, v6, file) ==
  CASE k = "tcp" /\ v6 = 1 -> "[" \o name \o "]:" \o ToString(port)
    [] k = "tcp" -> name \o ":" \o ToString(port)
    [] k = "unix" /\ file # <<>> -> name \o " (" \o ShowMode(file[1]) \o " " \o file[2] \o " " \o file[3] \o ")"
    [] OTHER -> name
=============================================================================
