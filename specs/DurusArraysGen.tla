-------------------------- MODULE DurusArraysGen --------------------------
(***************************************************************************)
(* Small arrays of all kinds, and all operations on them.  Checks that      *)
(* DurusArrays is total, that contents stay well-formed, and that what is   *)
(* put in is what is found, and nothing else changes.                       *)
(***************************************************************************)
EXTENDS DurusArrays, Json
CONSTANTS MaxLen, Depth
VARIABLES z, path
D == [op |-> "", kind |-> "", i |-> 0, j |-> 0, v |-> <<>>]
Int8(a, b) == <<0, 0, 0, 0, 0, 0, a, b>>
Huge == Fill(8, 255)
Starts ==
  {[D EXCEPT !.op = "INIT", !.kind = k, !.i = n] : k \in {"bytes", "set"}, n \in 0..MaxLen}
  \union {[D EXCEPT !.op = "INIT", !.kind = "bits", !.i = n] : n \in {0, 1, 7, 8, 9}}
  \union {[D EXCEPT !.op = "INIT", !.kind = "words", !.i = n, !.j = w] : n \in 0..MaxLen, w \in 1..3}
  \union {[D EXCEPT !.op = "INIT", !.kind = "ints", !.i = n, !.v = m] : n \in 0..MaxLen,
          m \in {<<>>, Int8(0, 0), Int8(0, 254), Int8(0, 255), Int8(255, 254), Int8(1, 0), <<0, 255, 255, 255, 255, 255, 255, 255>>}}
  \union {[D EXCEPT !.op = "INIT", !.kind = "byte", !.i = b] : b \in {0, 1, 128, 170, 255}}
Pos(n) == (-n - 1)..(n + 1)
Vals(y) == CASE y.kind = "bytes" -> {<<7>>, <<255>>, <<>>, <<1, 2>>}
             [] y.kind \in {"bits", "byte"} -> {<<0>>, <<1>>, <<2>>}
             [] y.kind = "words" -> {Fill(y.w, 255), [x \in 1..y.w |-> x], Fill(y.w - 1, 9), Fill(y.w + 1, 9)}
             [] y.kind = "ints" -> {Int8(0, 0), Int8(0, 254), Int8(1, 7), Int8(255, 254), <<0, 1, 2, 3, 4, 5, 6, 7>>, Huge, Blank(y.w)}
             [] OTHER -> {}
Ops(y) ==
  LET n == Len(y.c) k == y.kind IN
  (IF k = "byte" THEN {[D EXCEPT !.op = "INT"]} ELSE IF k = "set" THEN {} ELSE {[D EXCEPT !.op = o] : o \in {"LEN", "ITERX", "REOPEN", "FENCE"}})
  \union (IF k = "set" THEN {[D EXCEPT !.op = o, !.i = x] : o \in {"ADD", "DISCARD", "IN"}, x \in {0, 1, 2, 3, 4, 7, 8, 9, 20}}
          ELSE {[D EXCEPT !.op = "ITER"]} \union {[D EXCEPT !.op = "GET", !.i = i] : i \in Pos(n)}
               \union {[D EXCEPT !.op = "SET", !.i = i, !.v = v] : i \in Pos(n), v \in Vals(y)})
  \union (IF k = "bytes" THEN {[D EXCEPT !.op = "CUT", !.i = i, !.j = j] : i \in Pos(n), j \in Pos(n)}
                     \union {[D EXCEPT !.op = "PASTE", !.i = i, !.j = j, !.v = v] : i \in Pos(n), j \in Pos(n), v \in {<<>>, <<5>>, <<5, 6>>}}
                     \union {[D EXCEPT !.op = "SIZE", !.i = i, !.v = v] : i \in 0..(n + 2), v \in {<<>>, <<9>>}} ELSE {})
  \union (IF k = "bits" THEN {[D EXCEPT !.op = "SIZE", !.i = i] : i \in n..(n + 9)} \union {[D EXCEPT !.op = "STR"]} ELSE {})
  \union (IF k = "words" THEN {[D EXCEPT !.op = "WIDTH"]} ELSE {})
  \union (IF k = "ints" THEN {[D EXCEPT !.op = o] : o \in {"ITEMS", "BLANK"}} \union {[D EXCEPT !.op = "GETD", !.i = i] : i \in Pos(n)} ELSE {})
GInit == \E e \in Starts : z = Start(e) /\ path = <<e>>
GNext == /\ Len(path) <= Depth
         /\ \E e \in Ops(z) : e.op \in {"SET", "PASTE", "SIZE", "ADD", "DISCARD"} /\ \E y \in Outcomes(z, e) :
              Len(y[3]) <= MaxLen + 16 /\ z' = [z EXCEPT !.c = y[3]] /\ path' = Append(path, e)
GSpec == GInit /\ [][GNext]_<<z, path>>
View == z
OkValue(x) == CASE z.kind = "bytes" -> x \in 0..255
                [] z.kind \in {"bits", "byte"} -> x \in {0, 1}
                [] z.kind = "words" -> Len(x) = z.w
                [] z.kind = "ints" -> Fits(z.w, x)
                [] OTHER -> x >= 0
Total == \A e \in Ops(z) : Outcomes(z, e) # {} /\ \A y \in Outcomes(z, e) :
           /\ \A p \in DOMAIN y[3] : OkValue(y[3][p])
           /\ (e.op \in Reads \/ y[1] # "ok" => y[3] = z.c)
           /\ (e.op = "SET" /\ y[1] = "ok" =>
                 LET w == [z EXCEPT !.c = y[3]] IN
                 Outcomes(w, [e EXCEPT !.op = "GET"]) = {<<"ok", Out(z, Value(z, e.v)), y[3]>>}
                 /\ \A p \in DOMAIN z.c : p # Ix(z, e.i) + 1 => y[3][p] = z.c[p])
\* no number up to the maximum is taken for a blank
NoBlank == z.kind = "ints" /\ path[1].v # <<>> => path[1].v # Blank(z.w)
Emit == \A e \in Ops(z) : PrintT(<<"GEN", ToJson(Append(path, e))>>)
=============================================================================
