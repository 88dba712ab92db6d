----------------------------- MODULE DurusTools -----------------------------
(***************************************************************************)
(* Databases as graphs, what the tools that copy, renumber, rename, pack    *)
(* and inspect them must give, and the algorithms of three of them.         *)
(*                                                                          *)
(* A database is a function from oids to records [cls, val, refs]; refs is  *)
(* the sequence of references in the state, each <<oid, class>>; val is     *)
(* everything else.  The root is 0.                                         *)
(*                                                                          *)
(* The algorithms run on every small database:                              *)
(*   renumber  pickle the state of the root (depth first, each object once, *)
(*             the root itself by a mark if MarkRoot), unpickle it as the   *)
(*             state of the root of an empty database and commit (an oid    *)
(*             for each new object when it is first referred to)            *)
(*   rename    mark as changed every instance of class A, and if TouchAll   *)
(*             every object that mentions it, then write what is marked     *)
(*   copy      store all records in any order, then set the next oid        *)
(*             (NextAfterMax: after the largest, else the number of them)   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Ids, Classes, MarkRoot, TouchAll, NextAfterMax, Jobs
SetOf(q) == {q[i] : i \in DOMAIN q}
Range(q) == SetOf(q)

\* ------------------------------------------------------------- databases
Targets(d, o) == {r[1] : r \in SetOf(d[o].refs)}
RECURSIVE Reach(_, _, _)
Reach(d, frontier, acc) ==
  LET fr == (frontier \cap DOMAIN d) \ acc IN
  IF fr = {} THEN acc ELSE Reach(d, UNION {Targets(d, o) : o \in fr}, acc \cup fr)
Reachable(d) == Reach(d, {0}, {})
Restrict(d, s) == [o \in s |-> d[o]]
\* every reference leads to a record, and names its class
Closed(d) == \A o \in DOMAIN d : \A r \in SetOf(d[o].refs) : r[1] \in DOMAIN d /\ d[r[1]].cls = r[2]
\* the reachable oids in the order of a breadth-first traversal
RECURSIVE Number(_, _, _)
Number(d, i, order) ==
  IF i > Len(order) THEN order
  ELSE LET RECURSIVE Add(_, _)
           Add(j, ord) == IF j > Len(d[order[i]].refs) THEN ord
                          ELSE LET t == d[order[i]].refs[j][1] IN
                               Add(j + 1, IF t \in SetOf(ord) \/ t \notin DOMAIN d THEN ord ELSE Append(ord, t))
       IN Number(d, i + 1, Add(1, order))
Order(d) == Number(d, 1, <<0>>)
Place(order) == [o \in SetOf(order) |-> CHOOSE i \in DOMAIN order : order[i] = o]
\* the reachable graph up to the choice of oids; classes are changed by ren
Canon(d, ren) == LET order == Order(d)  at == Place(order) IN
  [i \in DOMAIN order |-> LET r == d[order[i]] IN
     <<ren[r.cls], r.val, [j \in DOMAIN r.refs |-> <<at[r.refs[j][1]], ren[r.refs[j][2]]>>]>>]
Same(d, e) == LET all == {d[o].cls : o \in DOMAIN d} \cup {e[o].cls : o \in DOMAIN e}
                         \cup UNION {{r[2] : r \in SetOf(d[o].refs)} : o \in DOMAIN d}
                         \cup UNION {{r[2] : r \in SetOf(e[o].refs)} : o \in DOMAIN e}
                  id == [c \in all |-> c]
              IN Canon(d, id) = Canon(e, id)
Minimal(d) == DOMAIN d = 0..(Cardinality(DOMAIN d) - 1)

\* ------------------------------------------------------------- inspection
Census(d) == [c \in {d[o].cls : o \in DOMAIN d} |-> Cardinality({o \in DOMAIN d : d[o].cls = c})]
Instances(d, classes) == {o \in DOMAIN d : d[o].cls \in classes}
\* an object's references to itself are not listed in its record
Refs(d, o) == Targets(d, o) \ {o}
Referring(d, t) == {o \in DOMAIN d : t \in Refs(d, o)}
RefIndex(d) == [t \in UNION {Refs(d, o) : o \in DOMAIN d} |-> Referring(d, t)]
Renamed(d, ren) == [o \in DOMAIN d |-> [cls |-> ren[d[o].cls], val |-> d[o].val,
                      refs |-> [j \in DOMAIN d[o].refs |-> <<d[o].refs[j][1], ren[d[o].refs[j][2]]>>]]]
Mentions(d, o, c) == d[o].cls = c \/ \E r \in SetOf(d[o].refs) : r[2] = c

\* -------------------------------------------------------------- algorithms
VARIABLES src, job, todo, memo, out, next
vars == <<src, job, todo, memo, out, next>>
Empty == [x \in {} |-> 0]
Graphs == {[o \in Ids |-> [cls |-> c[o], val |-> o, refs |->
              [j \in 1..Cardinality({k \in 1..2 : g[o][k] # -1}) |->
                 LET t == IF g[o][1] # -1 /\ j = 1 THEN g[o][1] ELSE g[o][2] IN <<t, c[t]>>]]] :
             c \in [Ids -> Classes], g \in [Ids -> [1..2 -> Ids \cup {-1}]]}
Init == /\ src \in Graphs /\ job \in Jobs /\ memo = Empty /\ out = Empty /\ next = 0
        /\ todo = CASE job = "renumber" -> [j \in DOMAIN src[0].refs |-> src[0].refs[j][1]]
                    [] OTHER -> <<>>
\* renumber: memo numbers the objects in the order in which they are pickled
Pickle == /\ job = "renumber" /\ todo # <<>>
          /\ LET o == Head(todo) IN
             IF o \in DOMAIN memo \/ (MarkRoot /\ o = 0)
             THEN todo' = Tail(todo) /\ memo' = memo
             ELSE /\ memo' = memo @@ (o :> Cardinality(DOMAIN memo) + 1)
                  /\ todo' = [j \in DOMAIN src[o].refs |-> src[o].refs[j][1]] \o Tail(todo)
          /\ UNCHANGED <<src, job, out, next>>
\* the objects as they are after unpickling: -1 is the root of the new database
Loaded == LET name == [o \in DOMAIN memo |-> memo[o]] @@ (0 :> -1)
              rec(o) == [cls |-> src[o].cls, val |-> src[o].val,
                         refs |-> [j \in DOMAIN src[o].refs |-> <<name[src[o].refs[j][1]], src[o].refs[j][2]>>]]
          IN [x \in {memo[o] : o \in DOMAIN memo} \cup {-1} |->
                IF x = -1 THEN rec(0) ELSE rec(CHOOSE o \in DOMAIN memo : memo[o] = x)]
RECURSIVE Commit(_, _, _)
Commit(d, i, order) ==
  IF i > Len(order) THEN order
  ELSE LET RECURSIVE Add(_, _)
           Add(j, ord) == IF j > Len(d[order[i]].refs) THEN ord
                          ELSE LET t == d[order[i]].refs[j][1] IN
                               Add(j + 1, IF t \in SetOf(ord) THEN ord ELSE Append(ord, t))
       IN Commit(d, i + 1, Add(1, order))
Write == /\ job = "renumber" /\ todo = <<>> /\ out = Empty
         /\ LET d == Loaded  order == Commit(d, 1, <<-1>>)  at == Place(order) IN
            /\ out' = [n \in 0..(Len(order) - 1) |-> [cls |-> d[order[n + 1]].cls, val |-> d[order[n + 1]].val,
                         refs |-> [j \in DOMAIN d[order[n + 1]].refs |->
                                     <<at[d[order[n + 1]].refs[j][1]] - 1, d[order[n + 1]].refs[j][2]>>]]]
            /\ next' = Len(order)
         /\ UNCHANGED <<src, job, todo, memo>>
A == CHOOSE c \in Classes : TRUE
New == [c \in Classes |-> IF c = A THEN "New" ELSE c]
\* what is written mentions the new class; what is not keeps its record
Rename == /\ job = "rename" /\ out = Empty
          /\ LET marked == {o \in DOMAIN src : src[o].cls = A \/ (TouchAll /\ Mentions(src, o, A))}
             IN out' = Renamed(Restrict(src, marked), New) @@ src
          /\ next' = next /\ UNCHANGED <<src, job, todo, memo>>
Copy == /\ job = "copy"
        /\ \E o \in DOMAIN src \ DOMAIN out : out' = out @@ (o :> src[o])
        /\ next' = IF NextAfterMax THEN 1 + CHOOSE m \in DOMAIN out' : \A x \in DOMAIN out' : x <= m
                   ELSE Cardinality(DOMAIN out')
        /\ UNCHANGED <<src, job, todo, memo>>
Next == Pickle \/ Write \/ Rename \/ Copy
Spec == Init /\ [][Next]_vars

Done == IF job = "copy" THEN DOMAIN out = DOMAIN src ELSE out # Empty
RenumberOk == (job = "renumber" /\ Done) => Same(src, out) /\ Closed(out) /\ Minimal(out) /\ next \notin DOMAIN out
RenameOk == (job = "rename" /\ Done) => /\ out = Renamed(src, New) /\ Closed(out)
                                        /\ \A o \in DOMAIN out : ~Mentions(out, o, A)
CopyOk == (job = "copy" /\ Done) => out = src /\ \A o \in DOMAIN out : o < next
\* the ways to look at a database agree with each other
RECURSIVE Sum(_, _)
Sum(f, s) == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN f[x] + Sum(f, s \ {x})
LookOk == /\ Sum(Census(src), DOMAIN Census(src)) = Cardinality(DOMAIN src)
          /\ \A t \in DOMAIN RefIndex(src) : RefIndex(src)[t] # {}
          /\ \A o, t \in DOMAIN src : (o \in Referring(src, t)) <=> (t \in DOMAIN RefIndex(src) /\ o \in RefIndex(src)[t])
          /\ Same(src, Restrict(src, Reachable(src))) /\ SetOf(Order(src)) = Reachable(src)
=============================================================================
