----------------------------- MODULE DurusBTree -----------------------------
(***************************************************************************)
(* The B-tree algorithms of durus/btree.py (insertion with splitting on the  *)
(* way down, deletion after Cormen et al. with all of its cases) on trees     *)
(* as values, and what they must achieve.                                    *)
(* A node is [k |-> keys, n |-> children], n = <<>> for a leaf.              *)
(* Values of the map are left out here: they travel with the keys.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS T,          \* minimum degree
          Keys        \* 1..Keys
VARIABLES tree, in    \* the tree; the keys that should be in it
vars == <<tree, in>>

Leaf(n) == n.n = <<>>
Full(n) == Len(n.k) = 2 * T - 1
Big(n) == Len(n.k) >= T
\* number of keys before key
Pos(n, key) == Cardinality({i \in DOMAIN n.k : n.k[i] < key}) + 1
Has(n, p, key) == p <= Len(n.k) /\ n.k[p] = key
Node(k, n) == [k |-> k, n |-> n]
Ins(s, p, e) == SubSeq(s, 1, p - 1) \o <<e>> \o SubSeq(s, p, Len(s))
Del(s, p) == SubSeq(s, 1, p - 1) \o SubSeq(s, p + 1, Len(s))
Put(s, p, e) == [s EXCEPT ![p] = e]

RECURSIVE MinKey(_), MaxKey(_)
MinKey(n) == IF Leaf(n) THEN n.k[1] ELSE MinKey(n.n[1])
MaxKey(n) == IF Leaf(n) THEN n.k[Len(n.k)] ELSE MaxKey(n.n[Len(n.n)])

\* split_child(): child p of n is full
Split(n, p) ==
  LET c == n.n[p]
      less == Node(SubSeq(c.k, 1, T - 1), IF Leaf(c) THEN <<>> ELSE SubSeq(c.n, 1, T))
      more == Node(SubSeq(c.k, T + 1, 2 * T - 1), IF Leaf(c) THEN <<>> ELSE SubSeq(c.n, T + 1, 2 * T))
  IN Node(Ins(n.k, p, c.k[T]), Ins(Put(n.n, p, less), p + 1, more))

\* insert_item() into a node that is not full
RECURSIVE InsertInto(_, _)
InsertInto(n, key) ==
  LET p == Pos(n, key) IN
  IF Has(n, p, key) THEN n
  ELSE IF Leaf(n) THEN Node(Ins(n.k, p, key), <<>>)
  ELSE LET m == IF Full(n.n[p]) THEN Split(n, p) ELSE n
           q == IF m # n /\ key > m.k[p] THEN p + 1 ELSE p
       IN IF m # n /\ key = m.k[p] THEN m
          ELSE Node(m.k, Put(m.n, q, InsertInto(m.n[q], key)))
\* BTree.add()
Insert(t, key) == InsertInto(IF Full(t) THEN Split(Node(<<>>, <<t>>), 1) ELSE t, key)

\* _remove_empty_level()
Shrink(n) == IF n.k = <<>> /\ ~Leaf(n) THEN n.n[1] ELSE n
Merge(a, key, b) == Node(a.k \o <<key>> \o b.k, a.n \o b.n)
\* delete(); the key may be missing, the rebalancing is done all the same
RECURSIVE Delete(_, _)
Delete(n, key) ==
  LET p == Pos(n, key) IN
  IF Leaf(n) THEN IF Has(n, p, key) THEN Node(Del(n.k, p), <<>>) ELSE n
  ELSE LET c == n.n[p]
           below == IF p > 1 THEN n.n[p-1] ELSE Node(<<>>, <<>>)
           above == IF p < Len(n.n) THEN n.n[p+1] ELSE Node(<<>>, <<>>)
       IN
       IF Has(n, p, key)
       THEN CASE Big(c) -> Shrink(Node(Put(n.k, p, MaxKey(c)), Put(n.n, p, Delete(c, MaxKey(c)))))      \* 2a
              [] ~Big(c) /\ Big(above) ->
                   Shrink(Node(Put(n.k, p, MinKey(above)), Put(n.n, p + 1, Delete(above, MinKey(above)))))    \* 2b
              [] OTHER -> Shrink(Node(Del(n.k, p), Put(Del(n.n, p + 1), p, Delete(Merge(c, key, above), key))))  \* 2c
       ELSE CASE Big(c) -> Shrink(Node(n.k, Put(n.n, p, Delete(c, key))))
              [] ~Big(c) /\ Big(below) ->                                                                \* 3a1
                   LET c2 == Node(<<n.k[p-1]>> \o c.k, IF Leaf(c) THEN <<>> ELSE <<below.n[Len(below.n)]>> \o c.n)
                       b2 == Node(SubSeq(below.k, 1, Len(below.k) - 1),
                                  IF Leaf(c) THEN <<>> ELSE SubSeq(below.n, 1, Len(below.n) - 1))
                   IN Shrink(Node(Put(n.k, p - 1, below.k[Len(below.k)]),
                                  Put(Put(n.n, p - 1, b2), p, Delete(c2, key))))
              [] ~Big(c) /\ ~Big(below) /\ Big(above) ->                                                  \* 3a2
                   LET c2 == Node(Append(c.k, n.k[p]), IF Leaf(c) THEN <<>> ELSE Append(c.n, above.n[1]))
                       a2 == Node(Tail(above.k), IF Leaf(c) THEN <<>> ELSE Tail(above.n))
                   IN Shrink(Node(Put(n.k, p, above.k[1]), Put(Put(n.n, p + 1, a2), p, Delete(c2, key))))
              [] OTHER ->
                   IF p > 1                                                                              \* 3b1
                   THEN LET m == Merge(below, n.k[p-1], c)
                        IN Shrink(Node(Del(n.k, p - 1), Put(Del(n.n, p - 1), p - 1, Delete(m, key))))
                   ELSE LET m == Merge(c, n.k[p], above)                                                 \* 3b2
                        IN Shrink(Node(Del(n.k, p), Put(Del(n.n, p + 1), p, Delete(m, key))))
----------------------------------------------------------------------------
Init == tree = Node(<<>>, <<>>) /\ in = {}
DoInsert(x) == tree' = Insert(tree, x) /\ in' = in \cup {x}
DoDelete(x) == tree' = Delete(tree, x) /\ in' = in \ {x}
Next == \E x \in 1..Keys : DoInsert(x) \/ DoDelete(x)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
RECURSIVE All(_), Depths(_), Sizes(_)
\* the keys in the order of iteration
All(n) == IF Leaf(n) THEN n.k
          ELSE FlattenSeq([i \in DOMAIN n.n |-> All(n.n[i]) \o IF i <= Len(n.k) THEN <<n.k[i]>> ELSE <<>>])
Depths(n) == IF Leaf(n) THEN {0} ELSE UNION {{d + 1 : d \in Depths(n.n[i])} : i \in DOMAIN n.n}
Sizes(n) == {Len(n.k)} \cup IF Leaf(n) THEN {} ELSE UNION {Sizes(n.n[i]) : i \in DOMAIN n.n}
RECURSIVE WellFormed(_)
WellFormed(n) == Leaf(n) \/ (Len(n.n) = Len(n.k) + 1 /\ \A i \in DOMAIN n.n : WellFormed(n.n[i]))

\* C19
Contents == All(tree) = SetToSortSeq(in, <)
\* C20
Balanced == /\ WellFormed(tree) /\ Cardinality(Depths(tree)) = 1
            /\ Len(tree.k) <= 2 * T - 1 /\ (~Leaf(tree) => tree.k # <<>>)
            /\ \A i \in DOMAIN tree.n : \A s \in Sizes(tree.n[i]) : s \in (T - 1)..(2 * T - 1)
=============================================================================
