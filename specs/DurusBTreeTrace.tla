-------------------------- MODULE DurusBTreeTrace --------------------------
(***************************************************************************)
(* Judges operations on a stored BTree (bt.py): results against a sorted     *)
(* map, the shape of the tree, and the tree that another connection finds.   *)
(*   m    the map;  cm  the map as of the last commit;  first  as of the     *)
(*   first one (AGAIN returns to it);  old  nodes may have no count;         *)
(*   ct   the tree as of the last commit                                     *)
(* A node in a trace: keys, values, children, count (-1: none), leaf, degree *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, stop, m, cm, first, old, cold, ct, seenct
lvars == <<m, cm, first, old, cold, ct, seenct>>
tvars == <<tid, l, stop, lvars>>
Ev == Traces[tid].ev
E == Ev[l]
Empty == [x \in {} |-> 0]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
With(f, k, v) == (k :> v) @@ f
Sorted(S) == SetToSortSeq(S, <)
Up(S) == LET s == Sorted(S) IN [i \in DOMAIN s |-> <<s[i], m[s[i]]>>]
Down(S) == Reverse(Up(S))
RECURSIVE AddAll(_, _, _)
AddAll(f, rows, i) == IF i > Len(rows) THEN f ELSE AddAll(With(f, rows[i][1], rows[i][2]), rows, i + 1)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

\* one pass over a tree: <<depth, number of items, clause>>
RECURSIVE Check(_, _, _), Items(_)
Check(n, root, isold) ==
  LET len == Len(n.k)
      sub == [i \in DOMAIN n.n |-> Check(n.n[i], FALSE, isold)]
      count == len + FoldSeq(LAMBDA x, y : x[2] + y, 0, sub)
      clause ==
        CASE n.l = 1 /\ n.n # <<>> -> "a leaf has children"
          [] n.l = 0 /\ Len(n.n) # len + 1 -> "wrong number of children"
          [] len > 2 * n.d - 1 -> "a node has too many items"
          [] ~root /\ len < n.d - 1 -> "a node has too few items"
          [] root /\ n.l = 0 /\ len = 0 -> "an empty root with children"
          [] \E i \in DOMAIN sub : sub[i][1] # sub[1][1] -> "leaves at different depths"
          [] n.c # count /\ ~(isold /\ n.c = -1) -> "a wrong count in a node"
          [] \E i \in DOMAIN n.n : n.n[i].d # n.d -> "nodes of different degrees"
          [] OTHER -> ""
      below == SelectSeq([i \in DOMAIN sub |-> sub[i][3]], LAMBDA x : x # "")
  IN <<IF n.n = <<>> THEN 0 ELSE sub[1][1] + 1, count, IF clause # "" THEN clause
                                                       ELSE IF below # <<>> THEN below[1] ELSE "">>
Items(n) == LET own == [i \in DOMAIN n.k |-> <<n.k[i], n.v[i]>>] IN
            IF n.n = <<>> THEN own
            ELSE FlattenSeq([i \in DOMAIN n.n |-> Items(n.n[i]) \o IF i <= Len(own) THEN <<own[i]>> ELSE <<>>])

TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ stop = FALSE /\ m = Empty /\ cm = Empty /\ first = Empty
             /\ old = FALSE /\ cold = FALSE /\ ct = <<>> /\ seenct = FALSE
Ok(b, clause) == IF b THEN "" ELSE clause
First(s) == IF \E i \in DOMAIN s : s[i] # ""
            THEN s[CHOOSE i \in DOMAIN s : s[i] # "" /\ \A j \in 1..(i-1) : s[j] = ""] ELSE ""

\* the map after an event
After(e) ==
  CASE e.op \in {"SET"} -> With(m, e.k, e.v)
    [] e.op = "DEL" -> Without(m, e.k)
    [] e.op = "SETDEF" -> IF e.k \in DOMAIN m THEN m ELSE With(m, e.k, e.v)
    [] e.op = "POP" -> Without(m, e.k)
    [] e.op = "POPITEM" -> IF e.res = "ok" THEN Without(m, e.out[1][1]) ELSE m
    [] e.op = "CLEAR" -> Empty
    [] e.op = "UPDATE" -> AddAll(m, e.rows, 1)
    [] e.op = "ABORT" -> cm
    [] e.op = "AGAIN" -> first
    [] OTHER -> m
Result(e, res, out) == First(<<Ok(e.res = res, e.op \o ": " \o e.res \o " instead of " \o res),
                               Ok(e.res # "ok" \/ e.out = out, e.op \o ": wrong result")>>)
RangeOf(e) ==
  LET S == IF e.k <= e.k2
           THEN {x \in DOMAIN m : (IF e.a = 1 THEN x >= e.k ELSE x > e.k) /\ (IF e.b = 1 THEN x <= e.k2 ELSE x < e.k2)}
           ELSE {x \in DOMAIN m : (IF e.a = 1 THEN x <= e.k ELSE x < e.k) /\ (IF e.b = 1 THEN x >= e.k2 ELSE x > e.k2)}
  IN IF e.k <= e.k2 THEN Up(S) ELSE Down(S)
ResultClause(e) ==
  LET has == e.k \in DOMAIN m none == DOMAIN m = {} IN
  CASE e.op \in {"SET", "CLEAR", "UPDATE"} -> Result(e, "ok", <<>>)
    [] e.op \in {"DEL", "NOTE"} -> Result(e, IF has THEN "ok" ELSE "KeyError", <<>>)
    [] e.op = "GET" -> Result(e, IF has THEN "ok" ELSE "KeyError", IF has THEN <<m[e.k]>> ELSE <<>>)
    [] e.op = "GETD" -> Result(e, "ok", IF has THEN <<m[e.k]>> ELSE <<-7>>)
    [] e.op = "IN" -> Result(e, "ok", IF has THEN <<1, 1>> ELSE <<0, 0>>)
    [] e.op = "LEN" -> Result(e, "ok", <<Cardinality(DOMAIN m), IF none THEN 0 ELSE 1>>)
    [] e.op = "MIN" -> IF none THEN Ok(e.res # "ok", "minimum of nothing")
                       ELSE Result(e, "ok", << <<MinOf(DOMAIN m), m[MinOf(DOMAIN m)]>> >>)
    [] e.op = "MAX" -> IF none THEN Ok(e.res # "ok", "maximum of nothing")
                       ELSE Result(e, "ok", << <<MaxOf(DOMAIN m), m[MaxOf(DOMAIN m)]>> >>)
    [] e.op = "ITER" -> Result(e, "ok", Up(DOMAIN m))
    [] e.op = "REV" -> Result(e, "ok", Down(DOMAIN m))
    [] e.op = "FROM" -> Result(e, "ok", Up({x \in DOMAIN m : x > e.k \/ (e.a = 1 /\ x = e.k)}))
    [] e.op = "BFROM" -> Result(e, "ok", Down({x \in DOMAIN m : x < e.k \/ (e.a = 1 /\ x = e.k)}))
    [] e.op = "RANGE" -> Result(e, "ok", RangeOf(e))
    [] e.op = "SETDEF" -> Result(e, "ok", <<IF has THEN m[e.k] ELSE e.v>>)
    [] e.op = "POP" -> IF has THEN Result(e, "ok", <<m[e.k]>>)
                       ELSE IF e.a = 1 THEN Result(e, "ok", <<-7>>) ELSE Result(e, "KeyError", <<>>)
    [] e.op = "POPITEM" -> IF none THEN Result(e, "KeyError", <<>>)
                           ELSE First(<<Ok(e.res = "ok", "popitem: " \o e.res),
                                        Ok(e.res # "ok" \/ (e.out[1][1] \in DOMAIN m /\ m[e.out[1][1]] = e.out[1][2]),
                                           "popitem: wrong result")>>)
    [] e.op = "DEGREE" -> Ok(e.res = "ok", "DEGREE: " \o e.res)
    [] e.op \in {"COMMIT", "ABORT", "AGAIN", "OLD"} -> ""
    [] e.op = "HANG" -> "no answer: " \o e.what
    [] e.op = "ERR" -> "driver: " \o e.what
    [] OTHER -> "driver: unknown event"
NewOld(e) == CASE e.op = "OLD" -> TRUE
               [] e.op = "CLEAR" -> FALSE
               [] e.op = "DEGREE" -> old /\ e.out = <<0>>
               [] e.op = "ABORT" -> cold
               [] e.op = "AGAIN" -> FALSE
               [] OTHER -> old
Want(f) == LET s == Sorted(DOMAIN f) IN [i \in DOMAIN s |-> <<s[i], f[s[i]]>>]
TreeClause(e) ==
  IF e.tree.c = -2 THEN ""
  ELSE First(<<Ok(Items(e.tree) = Want(After(e)), "the tree does not have the contents after " \o e.op),
               Check(e.tree, TRUE, NewOld(e))[3],
               IF e.op = "DEGREE" /\ e.out = <<1>> THEN Ok(e.tree.d = e.k, "the degree was not changed") ELSE "",
               IF e.op \in {"COMMIT", "OLD"} THEN Ok(e.other = e.tree, "another connection finds another tree") ELSE "",
               IF e.op = "ABORT" /\ seenct THEN Ok(e.tree = ct, "abort does not restore the tree") ELSE "">>)
Clause(e) == First(<<ResultClause(e), IF e.op = "HANG" THEN "" ELSE TreeClause(e)>>)
Apply(e) ==
  /\ m' = After(e) /\ old' = NewOld(e)
  /\ IF e.op \in {"COMMIT", "OLD"}
     THEN /\ cm' = m /\ cold' = NewOld(e) /\ ct' = e.tree /\ seenct' = TRUE
          /\ first' = IF seenct THEN first ELSE m
     ELSE IF e.op = "AGAIN" THEN cm' = first /\ seenct' = TRUE /\ ct' = Ev[CHOOSE i \in DOMAIN Ev : Ev[i].op = "COMMIT"
                                                                         /\ \A j \in 1..(i-1) : Ev[j].op # "COMMIT"].tree
                                 /\ UNCHANGED <<first, cold>>
     ELSE UNCHANGED <<cm, cold, ct, seenct, first>>
TraceStep ==
  /\ ~stop
  /\ IF l > Len(Ev)
     THEN PrintT(<<"DONE", tid, l, "">>) /\ stop' = TRUE /\ UNCHANGED <<tid, l, lvars>>
     ELSE LET cl == Clause(E) IN
          IF cl # "" THEN PrintT(<<"BAD", tid, l, cl>>) /\ stop' = TRUE /\ UNCHANGED <<tid, l, lvars>>
          ELSE Apply(E) /\ l' = l + 1 /\ UNCHANGED <<tid, stop>>
TraceSpec == TraceInit /\ [][TraceStep]_tvars
=============================================================================
