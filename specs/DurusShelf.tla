---------------------------- MODULE DurusShelf ----------------------------
(***************************************************************************)
(* A Shelf: a file with an initial mapping, an offset map whose unused      *)
(* entries (holes) are linked, and transactions after it.                   *)
(*   ini    the initial mapping; arr: the offset map, from 0 on             *)
(*          <<"at", name>> or <<"hole", next hole>>                         *)
(*   log    transactions, sequences of <<name, value>>                      *)
(*   given  names that next_name() returned since the file was opened       *)
(*   cur    where its search is: <<"none", 0>>, <<"hole", link to follow>>, *)
(*          <<"up", next candidate>>;  last: the last name given            *)
(* LookInLog: next_name() skips names that a transaction stored.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Names, Values, MaxLog, MaxGiven, LookInLog
VARIABLE s
None == [x \in {} |-> 0]
Size(ini) == IF DOMAIN ini = {} THEN 0 ELSE (CHOOSE m \in DOMAIN ini : \A x \in DOMAIN ini : x <= m) + 2
\* what writing a new Shelf does: every hole refers to the one before it, the first to the last
Stitch(ini) ==
  LET n == Size(ini)
      before(i) == {j \in 0..(i - 1) : j \notin DOMAIN ini}
      prev(i) == IF before(i) = {} THEN n - 1 ELSE CHOOSE m \in before(i) : \A x \in before(i) : x <= m
  IN [i \in 0..(n - 1) |-> IF i \in DOMAIN ini THEN <<"at", i>> ELSE <<"hole", prev(i)>>]
New(ini) == [ini |-> ini, arr |-> Stitch(ini), log |-> <<>>, given |-> {}, cur |-> <<"none", 0>>, last |-> -1]
RECURSIVE Batch(_, _)
Batch(f, b) == IF b = <<>> THEN f ELSE Batch((b[1][1] :> b[1][2]) @@ f, Tail(b))
RECURSIVE Fold(_, _)
Fold(f, log) == IF log = <<>> THEN f ELSE Fold(Batch(f, log[1]), Tail(log))
Mem(z) == Fold(None, z.log)
\* what the Shelf holds: through the index of the transactions, and the offset map
Lookup(z, n) == LET m == Mem(z) IN
                IF n \in DOMAIN m THEN <<m[n]>>
                ELSE IF n \in DOMAIN z.arr THEN (IF z.arr[n][1] = "at" THEN <<z.ini[n]>> ELSE <<>>)
                ELSE <<>>
Map(z) == Fold(z.ini, z.log)

Begin(z) == IF Size(z.ini) = 0 THEN <<"up", 0>> ELSE <<"hole", Size(z.ini) - 1>>
RECURSIVE Search(_, _)
Search(z, cur) ==
  LET here == IF cur[1] = "none" THEN Begin(z) ELSE cur
      cand == IF here[1] = "up" THEN here[2] ELSE z.arr[here[2]][2]
      then == IF here[1] = "up" THEN <<"up", cand + 1>>
              ELSE IF cand = Size(z.ini) - 1 THEN <<"up", Size(z.ini)>> ELSE <<"hole", cand>>
  IN IF LookInLog /\ cand \in DOMAIN Mem(z) THEN Search(z, then) ELSE <<cand, then>>
NextName(z) == LET r == Search(z, z.cur) IN [z EXCEPT !.cur = r[2], !.last = r[1], !.given = @ \union {r[1]}]
Store(z, b) == [z EXCEPT !.log = Append(@, b)]
Reopen(z) == [z EXCEPT !.given = {}, !.cur = <<"none", 0>>, !.last = -1]

Items == Names \X Values
Batches == {<<x>> : x \in Items} \union {<<x, y>> : x \in Items, y \in Items} \union {<<>>}
Acts == {<<"STORE", b>> : b \in {x \in Batches : Len(s.log) < MaxLog}}
        \union {<<"FAIL", b>> : b \in Batches}
        \union (IF Cardinality(s.given) < MaxGiven THEN {<<"NEXT", <<>>>>} ELSE {})
        \union {<<"REOPEN", <<>>>>}
Do(z, c) == CASE c[1] = "STORE" -> Store(z, c[2])
              [] c[1] = "FAIL" -> z
              [] c[1] = "NEXT" -> NextName(z)
              [] c[1] = "REOPEN" -> Reopen(z)
Init == \E d \in SUBSET Names : \E f \in [d -> Values] : s = New(f)
Next == \E c \in Acts : s' = Do(s, c)
Spec == Init /\ [][Next]_s

Agree == \A n \in Names : Lookup(s, n) = IF n \in DOMAIN Map(s) THEN <<Map(s)[n]>> ELSE <<>>
\* names are fresh, and none is passed over
Fresh == [][s'.given # s.given /\ s'.given # {} => s'.last \notin s.given \union DOMAIN Map(s)]_s
NoWaste == s.cur[1] = "up" => \A n \in 0..(s.cur[2] - 1) : n \in DOMAIN Map(s) \union s.given
=============================================================================
