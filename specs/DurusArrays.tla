---------------------------- MODULE DurusArrays ----------------------------
(***************************************************************************)
(* What the arrays of durus.utils do.  z = [kind, c, w]: the content, and   *)
(* the width of words in bytes.  kind:                                      *)
(*   bytes  sequence of 0..255          bits   sequence of 0, 1             *)
(*   words  sequence of w-tuples        ints   sequence of 8 byte tuples    *)
(*   set    ordered sequence of numbers byte   8 bits, highest first        *)
(* Outcomes(z, e): triples <<result, output, content>> that e may have.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Fill(n, x) == [i \in 1..n |-> x]
Same(z, res) == {<<res, <<>>, z.c>>}
Gives(z, out) == {<<"ok", out, z.c>>}
Becomes(c) == {<<"ok", <<>>, c>>}
\* positions from 0; from the end if negative (not with bytes)
Ix(z, i) == IF i < 0 /\ z.kind # "bytes" THEN i + Len(z.c) ELSE i
In(z, i) == Ix(z, i) >= 0 /\ Ix(z, i) < Len(z.c)
At(z, i) == z.c[Ix(z, i) + 1]
Put(z, i, x) == [z.c EXCEPT ![Ix(z, i) + 1] = x]
\* ints are tuples of 8 bytes, highest first
RECURSIVE Up(_, _)
Up(d, p) == IF p = 0 THEN d ELSE IF d[p] < 255 THEN [d EXCEPT ![p] = @ + 1] ELSE Up([d EXCEPT ![p] = 0], p - 1)
Width(d) == LET lead == {p \in 1..8 : d[p] # 0} IN IF lead = {} THEN 0 ELSE 9 - (CHOOSE p \in lead : \A q \in lead : p <= q)
\* enough for maximum + 1, so that no number up to the maximum is taken for a blank
WidthFor(max) == IF max = <<>> THEN 8 ELSE Width(Up(max, 8))
Blank(w) == [p \in 1..8 |-> IF p > 8 - w THEN 255 ELSE 0]
Fits(w, d) == Len(d) = 8 /\ Width(d) <= w
Bits(b) == [p \in 1..8 |-> (b \div 2^(8 - p)) % 2]
RECURSIVE Num(_)
Num(bits) == IF bits = <<>> THEN 0 ELSE 2 * Num(SubSeq(bits, 1, Len(bits) - 1)) + bits[Len(bits)]
Ordered(S) == SetToSortSeq(S, <)
Els(c) == {c[i] : i \in DOMAIN c}
Bool(x) == <<IF x THEN 1 ELSE 0>>
Start(e) == CASE e.kind = "bytes" -> [kind |-> "bytes", c |-> Fill(e.i, 0), w |-> 1]
              [] e.kind = "bits" -> [kind |-> "bits", c |-> Fill(e.i, 0), w |-> 0]
              [] e.kind = "words" -> [kind |-> "words", c |-> Fill(e.i, Fill(e.j, 0)), w |-> e.j]
              [] e.kind = "ints" -> LET w == WidthFor(e.v) IN [kind |-> "ints", c |-> Fill(e.i, Blank(w)), w |-> w]
              [] e.kind = "set" -> [kind |-> "set", c |-> <<>>, w |-> 0]
              [] e.kind = "byte" -> [kind |-> "byte", c |-> Bits(e.i), w |-> 0]
\* an error of the index, or of the value, or the change
Change(z, in, good, c) ==
  IF in /\ good THEN Becomes(c)
  ELSE (IF in THEN {} ELSE Same(z, "IndexError")) \union (IF good THEN {} ELSE Same(z, "ValueError"))
Good(z, v) == CASE z.kind = "bytes" -> Len(v) = 1
                [] z.kind = "words" -> Len(v) = z.w
                [] z.kind = "ints" -> Fits(z.w, v)
                [] OTHER -> TRUE
Value(z, v) == CASE z.kind = "bytes" -> v[1]
                 [] z.kind \in {"bits", "byte"} -> IF v = <<0>> THEN 0 ELSE 1
                 [] OTHER -> v
Out(z, x) == IF z.kind \in {"words", "ints"} THEN x ELSE <<x>>
Outcomes(z, e) ==
  LET n == Len(z.c) IN
  CASE e.op = "LEN" -> Gives(z, <<n>>)
    [] e.op = "GET" -> IF In(z, e.i) THEN Gives(z, Out(z, At(z, e.i))) ELSE Same(z, "IndexError")
    [] e.op = "SET" -> IF In(z, e.i) /\ Good(z, e.v) THEN Becomes(Put(z, e.i, Value(z, e.v)))
                       ELSE Change(z, In(z, e.i), Good(z, e.v), z.c)
    [] e.op \in {"ITER", "ITERX", "STR"} -> Gives(z, z.c)
    \* bytes
    [] e.op = "CUT" -> IF 0 <= e.i /\ e.i < e.j /\ e.j <= n THEN Gives(z, SubSeq(z.c, e.i + 1, e.j))
                       ELSE Same(z, "IndexError") \union (IF 0 <= e.i /\ e.i = e.j /\ e.j <= n THEN Gives(z, <<>>) ELSE {})
    [] e.op = "PASTE" -> LET in == 0 <= e.i /\ e.i < e.j /\ e.j <= n IN
                         IF in /\ Len(e.v) = e.j - e.i THEN Becomes(SubSeq(z.c, 1, e.i) \o e.v \o SubSeq(z.c, e.j + 1, n))
                         ELSE Change(z, in, Len(e.v) = e.j - e.i, z.c) \union
                              (IF 0 <= e.i /\ e.i = e.j /\ e.j <= n /\ e.v = <<>> THEN Becomes(z.c) ELSE {})
    [] e.op = "SIZE" -> IF e.i < n THEN Same(z, "error") ELSE Becomes(z.c \o Fill(e.i - n, IF e.v = <<>> THEN 0 ELSE e.v[1]))
    \* words, ints
    [] e.op = "WIDTH" -> Gives(z, <<z.w>>)
    [] e.op = "BLANK" -> Gives(z, Blank(z.w))
    [] e.op = "GETD" -> IF In(z, e.i) /\ At(z, e.i) # Blank(z.w) THEN Gives(z, At(z, e.i)) ELSE Gives(z, <<>>)
    [] e.op = "ITEMS" -> LET p == SelectSeq([x \in 1..n |-> x], LAMBDA x : z.c[x] # Blank(z.w)) IN
                         Gives(z, [x \in DOMAIN p |-> <<p[x] - 1, z.c[p[x]]>>])
    \* sets
    [] e.op = "ADD" -> Becomes(Ordered(Els(z.c) \union {e.i}))
    [] e.op = "DISCARD" -> Becomes(Ordered(Els(z.c) \ {e.i}))
    [] e.op = "IN" -> Gives(z, Bool(e.i \in Els(z.c)))
    \* bytes as bits
    [] e.op = "INT" -> Gives(z, <<Num(z.c)>>)
    [] e.op = "REOPEN" -> Becomes(z.c)
    [] e.op = "FENCE" -> Becomes(z.c)
Reads == {"LEN", "GET", "ITER", "ITERX", "STR", "CUT", "WIDTH", "BLANK", "GETD", "ITEMS", "IN", "INT"}
=============================================================================
