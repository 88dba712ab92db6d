---------------------------- MODULE DurusCont ----------------------------
(***************************************************************************)
(* What operations on a list, dict or set do.  The content of a list is a   *)
(* sequence, of a dict a sequence of <<key, value>> in the order of         *)
(* insertion, of a set an ordered sequence.                                 *)
(* Outcomes(kind, c, e): the triples <<result, output, content>> that       *)
(* operation e may have; NN stands for an argument that is left out.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
NN == -99
Lowest == -1
Highest == 12
Lower(a, b) == IF a < b THEN a ELSE b
Upper(a, b) == IF a > b THEN a ELSE b
B(x) == IF x THEN <<1>> ELSE <<0>>
Same(c, res) == {<<res, <<>>, c>>}
Gives(c, out) == {<<"ok", out, c>>}
Becomes(new) == {<<"ok", <<>>, new>>}

\* ------------------------------------------------------------------ slices
\* positions (from 0) of the slice i:j:k of a sequence of length n, in order
SliceOf(n, i, j, k) ==
  LET step == IF k = NN THEN 1 ELSE k
      low == IF step > 0 THEN 0 ELSE -1
      high == IF step > 0 THEN n ELSE n - 1
      clip(x) == IF x < 0 THEN Upper(x + n, low) ELSE Lower(x, high)
      start == IF i = NN THEN (IF step > 0 THEN low ELSE high) ELSE clip(i)
      stop == IF j = NN THEN (IF step > 0 THEN high ELSE low) ELSE clip(j)
      len == IF step > 0 THEN (IF stop > start THEN (stop - start - 1) \div step + 1 ELSE 0)
                         ELSE (IF stop < start THEN (start - stop - 1) \div (-step) + 1 ELSE 0)
  IN <<start, stop, [x \in 1..len |-> start + (x - 1) * step]>>
At(c, p) == c[p + 1]
Cut(c, gone) == [x \in 1..(Len(c) - Cardinality(gone)) |->
                 c[CHOOSE p \in 1..Len(c) : p - 1 \notin gone /\ Cardinality({q \in 1..p : q - 1 \notin gone}) = x]]
Part(c, from, to) == SubSeq(c, from + 1, to)   \* positions from..to-1
Index(n, i) == IF i < 0 THEN i + n ELSE i
InRange(n, i) == Index(n, i) >= 0 /\ Index(n, i) < n

\* ------------------------------------------------------------------- lists
RECURSIVE Repeat(_, _)
Repeat(c, n) == IF n <= 0 THEN <<>> ELSE c \o Repeat(c, n - 1)
Stable(c, f(_), backward) ==
  LET r == [x \in 1..(Highest - Lowest + 1) |->
            LET v == IF backward THEN Highest - x + 1 ELSE Lowest + x - 1 IN SelectSeq(c, LAMBDA y : f(y) = v)]
  IN FlattenSeq(r)
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
              ELSE a[1] < b[1] \/ (a[1] = b[1] /\ Less(Tail(a), Tail(b)))
Count(c, x) == Cardinality({p \in DOMAIN c : c[p] = x})
Find(c, x, i, j) ==
  LET n == Len(c)
      from == IF i = NN THEN 0 ELSE IF i < 0 THEN Upper(i + n, 0) ELSE i
      to == IF j = NN THEN n ELSE IF j < 0 THEN Upper(j + n, 0) ELSE Lower(j, n)
  IN {p \in 0..(n - 1) : p >= from /\ p < to /\ c[p + 1] = x}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Starts(xs) == {SubSeq(xs, 1, p) : p \in 0..Len(xs)}
\* the argument: its items, or the content itself
Arg(c, e) == IF e.how = "self" THEN c ELSE e.xs
Fails(e) == e.how \in {"genfail", "noniter", "pairbad", "two"}
Failure(e) == CASE e.how = "genfail" -> {"Boom"} [] e.how = "pairbad" -> {"ValueError", "TypeError"}
                [] OTHER -> {"TypeError"}

OfList(c, e) ==
  LET n == Len(c) IN
  CASE e.op = "NEW" -> IF Fails(e) THEN {<<r, <<>>, c>> : r \in Failure(e)} ELSE Becomes(e.xs)
    [] e.op = "APPEND" -> Becomes(Append(c, e.x))
    [] e.op = "INSERT" -> LET p == IF e.i < 0 THEN Upper(e.i + n, 0) ELSE Lower(e.i, n) IN
                          Becomes(Part(c, 0, p) \o <<e.x>> \o Part(c, p, n))
    [] e.op = "POP" -> LET i == IF e.i = NN THEN -1 ELSE e.i IN
                       IF InRange(n, i) THEN {<<"ok", <<At(c, Index(n, i))>>, Cut(c, {Index(n, i)})>>}
                       ELSE Same(c, "IndexError")
    [] e.op = "REMOVE" -> IF Find(c, e.x, NN, NN) = {} THEN Same(c, "ValueError")
                          ELSE Becomes(Cut(c, {Least(Find(c, e.x, NN, NN))}))
    [] e.op = "GETI" -> IF InRange(n, e.i) THEN Gives(c, <<At(c, Index(n, e.i))>>) ELSE Same(c, "IndexError")
    [] e.op = "SETI" -> IF InRange(n, e.i) THEN Becomes([c EXCEPT ![Index(n, e.i) + 1] = e.x]) ELSE Same(c, "IndexError")
    [] e.op = "DELI" -> IF InRange(n, e.i) THEN Becomes(Cut(c, {Index(n, e.i)})) ELSE Same(c, "IndexError")
    [] e.op = "GETS" -> IF e.k = 0 THEN Same(c, "ValueError")
                        ELSE LET p == SliceOf(n, e.i, e.j, e.k)[3] IN Gives(c, [x \in DOMAIN p |-> At(c, p[x])])
    [] e.op = "DELS" -> IF e.k = 0 THEN Same(c, "ValueError")
                        ELSE LET p == SliceOf(n, e.i, e.j, e.k)[3] IN Becomes(Cut(c, {p[x] : x \in DOMAIN p}))
    [] e.op = "SETS" -> IF Fails(e) THEN {<<r, <<>>, c>> : r \in Failure(e) \union (IF e.k = 0 THEN {"ValueError"} ELSE {})}
                        ELSE IF e.k = 0 THEN Same(c, "ValueError")
                        ELSE LET p == SliceOf(n, e.i, e.j, e.k)  xs == Arg(c, e) IN
                             IF e.k \in {NN, 1}
                             THEN Becomes(Part(c, 0, p[1]) \o xs \o Part(c, Upper(p[1], p[2]), n))
                             ELSE IF Len(p[3]) # Len(xs) THEN Same(c, "ValueError")
                             ELSE Becomes([x \in DOMAIN c |-> IF \E y \in DOMAIN xs : p[3][y] = x - 1
                                                              THEN xs[CHOOSE y \in DOMAIN xs : p[3][y] = x - 1] ELSE c[x]])
    [] e.op \in {"EXTEND", "IADD"} ->
         IF e.how = "genfail" THEN {<<"Boom", <<>>, c \o p>> : p \in Starts(e.xs)}
         ELSE IF Fails(e) THEN {<<r, <<>>, c>> : r \in Failure(e)} ELSE Becomes(c \o Arg(c, e))
    [] e.op = "ADD" -> IF Fails(e) THEN {<<r, <<>>, c>> : r \in Failure(e)} ELSE Gives(c, c \o Arg(c, e))
    [] e.op = "RADD" -> Gives(c, e.xs \o c)
    [] e.op \in {"MUL", "RMUL"} -> Gives(c, Repeat(c, e.i))
    [] e.op = "IMUL" -> Becomes(Repeat(c, e.i))
    [] e.op = "INDEX" -> LET f == Find(c, e.x, e.i, e.j) IN IF f = {} THEN Same(c, "ValueError") ELSE Gives(c, <<Least(f)>>)
    [] e.op = "COUNT" -> Gives(c, <<Count(c, e.x)>>)
    [] e.op = "IN" -> Gives(c, B(Count(c, e.x) > 0))
    [] e.op = "LEN" -> Gives(c, <<n>>)
    [] e.op = "BOOL" -> Gives(c, B(n > 0))
    [] e.op = "ITER" -> Gives(c, c)
    [] e.op = "REV" -> Gives(c, Reverse(c))
    [] e.op = "REVERSE" -> Becomes(Reverse(c))
    [] e.op = "SORT" -> Becomes(CASE e.how = "plain" -> Stable(c, LAMBDA y : y, FALSE)
                                  [] e.how = "back" -> Stable(c, LAMBDA y : y, TRUE)
                                  [] e.how = "key" -> Stable(c, LAMBDA y : y % 3, FALSE)
                                  [] OTHER -> Stable(c, LAMBDA y : y % 3, TRUE))
    [] e.op = "CLEAR" -> Becomes(<<>>)
    [] e.op = "CMP" -> LET o == Arg(c, e) IN
                       Gives(c, B(Less(c, o)) \o B(~Less(o, c)) \o B(c = o) \o B(c # o) \o B(Less(o, c)) \o B(~Less(c, o)))

\* ------------------------------------------------------------------- dicts
Keys(c) == {c[p][1] : p \in DOMAIN c}
Pos(c, k) == CHOOSE p \in DOMAIN c : c[p][1] = k
Val(c, k) == c[Pos(c, k)][2]
Put(c, k, v) == IF k \in Keys(c) THEN [c EXCEPT ![Pos(c, k)] = <<k, v>>] ELSE Append(c, <<k, v>>)
RECURSIVE PutAll(_, _)
PutAll(c, xs) == IF xs = <<>> THEN c ELSE PutAll(Put(c, xs[1][1], xs[1][2]), Tail(xs))
AsSet(c) == {c[p] : p \in DOMAIN c}
OfDict(c, e) ==
  LET has == e.x \in Keys(c) IN
  CASE e.op = "NEW" -> IF Fails(e) THEN {<<r, <<>>, c>> : r \in Failure(e)} ELSE Becomes(PutAll(<<>>, e.xs))
    [] e.op = "FROMKEYS" -> Gives(c, PutAll(<<>>, [p \in DOMAIN e.xs |-> <<e.xs[p], e.i>>]))
    [] e.op = "SETK" -> Becomes(Put(c, e.x, e.i))
    [] e.op = "GETK" -> IF has THEN Gives(c, <<Val(c, e.x)>>)
                        ELSE IF e.how = "missing" THEN Gives(c, <<-5>>) ELSE Same(c, "KeyError")
    [] e.op = "GET" -> Gives(c, <<IF has THEN Val(c, e.x) ELSE e.i>>)
    [] e.op = "DELK" -> IF has THEN Becomes(Cut(c, {Pos(c, e.x) - 1})) ELSE Same(c, "KeyError")
    [] e.op = "POPK" -> IF has THEN {<<"ok", <<Val(c, e.x)>>, Cut(c, {Pos(c, e.x) - 1})>>}
                        ELSE IF e.i = NN THEN Same(c, "KeyError") ELSE Gives(c, <<e.i>>)
    [] e.op = "POPITEM" -> IF c = <<>> THEN Same(c, "KeyError")
                           ELSE {<<"ok", <<c[Len(c)]>>, SubSeq(c, 1, Len(c) - 1)>>}
    [] e.op = "SETDEF" -> {<<"ok", <<IF has THEN Val(c, e.x) ELSE e.i>>, IF has THEN c ELSE Put(c, e.x, e.i)>>}
    [] e.op = "UPDATE" -> IF e.how \in {"genfail", "pairbad"}
                          THEN {<<r, <<>>, PutAll(c, p)>> : r \in Failure(e), p \in Starts(e.xs)}
                          ELSE IF Fails(e) THEN {<<r, <<>>, c>> : r \in Failure(e)} ELSE Becomes(PutAll(c, Arg(c, e)))
    [] e.op = "CLEAR" -> Becomes(<<>>)
    [] e.op = "COPY" -> Gives(c, c)
    [] e.op \in {"IN", "HASKEY"} -> Gives(c, B(has))
    [] e.op = "LEN" -> Gives(c, <<Len(c)>>)
    [] e.op = "BOOL" -> Gives(c, B(c # <<>>))
    [] e.op = "ITEMS" -> Gives(c, c)
    [] e.op = "KEYS" -> Gives(c, [p \in DOMAIN c |-> c[p][1]])
    [] e.op = "VALUES" -> Gives(c, [p \in DOMAIN c |-> c[p][2]])
    [] e.op = "CMP" -> LET o == AsSet(PutAll(<<>>, Arg(c, e))) IN Gives(c, B(AsSet(c) = o) \o B(AsSet(c) # o))
    [] e.op = "UNHASH" -> Same(c, "TypeError")

\* -------------------------------------------------------------------- sets
Els(xs) == {xs[p] : p \in DOMAIN xs}
Seq2(S) == SetToSortSeq(S, <)
RECURSIVE Subsets(_)
Subsets(xs) == IF xs = <<>> THEN {{}} ELSE LET r == Subsets(Tail(xs)) IN r \union {s \union {xs[1]} : s \in r}
Combine(op, a, b) == CASE op = "and" -> a \cap b [] op = "or" -> a \union b [] op = "sub" -> a \ b
                       [] OTHER -> (a \ b) \union (b \ a)
IsSet(how) == how \in {"pset", "set", "frozenset", "self"}
OfSet(c, e) ==
  LET s == Els(c)  o == Els(Arg(c, e)) IN
  CASE e.op = "NEW" -> IF Fails(e) THEN {<<r, <<>>, c>> : r \in Failure(e)} ELSE Becomes(Seq2(Els(e.xs)))
    [] e.op = "ADD" -> Becomes(Seq2(s \union {e.x}))
    [] e.op = "DISCARD" -> Becomes(Seq2(s \ {e.x}))
    [] e.op = "REMOVE" -> IF e.x \in s THEN Becomes(Seq2(s \ {e.x})) ELSE Same(c, "KeyError")
    [] e.op = "POP" -> IF s = {} THEN Same(c, "KeyError") ELSE {<<"ok", <<y>>, Seq2(s \ {y})>> : y \in s}
    [] e.op = "CLEAR" -> Becomes(<<>>)
    [] e.op = "COPY" -> Gives(c, c)
    [] e.op = "ITER" -> Gives(c, c)
    [] e.op = "IN" -> Gives(c, B(e.x \in s))
    [] e.op = "LEN" -> Gives(c, <<Len(c)>>)
    [] e.op = "BOOL" -> Gives(c, B(c # <<>>))
    [] e.op = "OPER" -> IF IsSet(e.how) THEN Gives(c, Seq2(Combine(e.f, s, o))) ELSE Same(c, "TypeError")
    [] e.op = "ROPER" -> Gives(c, Seq2(Combine(e.f, o, s)))
    [] e.op = "IOPER" -> IF IsSet(e.how) THEN Becomes(Seq2(Combine(e.f, s, o))) ELSE Same(c, "TypeError")
    [] e.op = "METHOD" -> IF Fails(e) THEN {<<r, <<>>, c>> : r \in Failure(e)}
                                           \union (IF e.how = "genfail" /\ e.f = "and" THEN Gives(c, Seq2(s \cap o)) ELSE {})
                          ELSE Gives(c, Seq2(Combine(e.f, s, o)))
    [] e.op = "UPDATE" -> \* update, difference_update, ...: items before a failure may count
         IF e.how = "genfail"
         THEN {<<"Boom", <<>>, Seq2(IF e.f = "and" THEN s ELSE Combine(e.f, s, x))>> : x \in {Els(p) : p \in Starts(e.xs)}}
              \union (IF e.f = "and" THEN Becomes(Seq2(s \cap o)) ELSE {})  \* an intersection may stop early
         ELSE IF Fails(e) THEN {<<r, <<>>, c>> : r \in Failure(e)} ELSE Becomes(Seq2(Combine(e.f, s, o)))
    [] e.op = "UPDATE2" -> Becomes(Seq2(Combine(e.f, Combine(e.f, s, o), Els(e.ys))))
    [] e.op = "METHOD2" -> Gives(c, Seq2(Combine(e.f, Combine(e.f, s, o), Els(e.ys))))
    [] e.op = "SUBSET" -> Gives(c, B(s \subseteq o) \o B(o \subseteq s) \o B(s \cap o = {}))
    [] e.op = "CMP" -> Gives(c, B(s # o /\ s \subseteq o) \o B(s \subseteq o) \o B(s = o) \o B(s # o)
                                \o B(s # o /\ o \subseteq s) \o B(o \subseteq s))
    [] e.op = "UNHASH" -> Same(c, "TypeError")
Outcomes(kind, c, e) == CASE kind = "list" -> OfList(c, e) [] kind = "dict" -> OfDict(c, e) [] OTHER -> OfSet(c, e)
Reads(kind) == CASE kind = "list" -> {"GETI", "GETS", "ADD", "RADD", "MUL", "RMUL", "INDEX", "COUNT", "IN", "LEN", "BOOL", "ITER", "REV", "CMP"}
                 [] kind = "dict" -> {"FROMKEYS", "GETK", "GET", "COPY", "IN", "HASKEY", "LEN", "BOOL", "ITEMS", "KEYS", "VALUES", "CMP"}
                 [] OTHER -> {"COPY", "ITER", "IN", "LEN", "BOOL", "OPER", "ROPER", "METHOD", "METHOD2", "SUBSET", "CMP"}
\* sorting with a key that fails: some order of the same items
SameItems(a, b) == Len(a) = Len(b) /\ \A p \in DOMAIN a : Count(a, a[p]) = Count(b, a[p])
=============================================================================
