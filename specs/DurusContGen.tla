--------------------------- MODULE DurusContGen ---------------------------
(***************************************************************************)
(* Every small list, dict and set, and operations on it.  Checks that the   *)
(* description in DurusCont is total and keeps contents well-formed, and    *)
(* emits all contents, and all operations (once) for the replay.            *)
(***************************************************************************)
EXTENDS DurusCont, Json
CONSTANTS MaxLen, Bound
VARIABLES kind, c
gvars == <<kind, c>>
D == [op |-> "", i |-> 0, j |-> 0, k |-> 0, x |-> 0, xs |-> <<>>, ys |-> <<>>, how |-> "", f |-> ""]
Vals == {1, 2}
Seqs(n) == UNION {[1..m -> Vals] : m \in 0..n}
Ends == {NN} \union (-Bound..Bound)
Steps == {NN, -2, -1, 1, 2, 0}
Op1(ops) == {[D EXCEPT !.op = o] : o \in ops}
SliceOps ==
  {[D EXCEPT !.op = o, !.i = i, !.j = j, !.k = k] : o \in {"GETS", "DELS"}, i \in Ends, j \in Ends, k \in Steps}
  \union {[D EXCEPT !.op = "SETS", !.i = i, !.j = j, !.k = k, !.how = h, !.xs = x] :
          i \in Ends, j \in Ends, k \in Steps, h \in {"list", "gen"}, x \in {<<>>, <<3>>, <<3, 4>>}}
  \union {[D EXCEPT !.op = "SETS", !.i = i, !.j = j, !.k = k, !.how = h] :
          i \in {NN, 0, 1, -1}, j \in {NN, 1, -1}, k \in {NN, 1, 2, -1, 0}, h \in {"self", "noniter", "genfail"}}
ListOps ==
  Op1({"LEN", "BOOL", "ITER", "REV", "REVERSE", "CLEAR"})
  \union {[D EXCEPT !.op = "SORTERR", !.i = i] : i \in 1..6}
  \union {[D EXCEPT !.op = o, !.x = x] : o \in {"APPEND", "REMOVE", "COUNT", "IN"}, x \in {1, 3}}
  \union {[D EXCEPT !.op = o, !.i = i, !.x = 3] : o \in {"INSERT", "GETI", "SETI", "DELI"}, i \in -Bound..Bound}
  \union {[D EXCEPT !.op = "POP", !.i = i] : i \in Ends}
  \union {[D EXCEPT !.op = o, !.i = i] : o \in {"MUL", "RMUL", "IMUL"}, i \in -1..2}
  \union {[D EXCEPT !.op = "INDEX", !.x = x, !.i = i, !.j = j] : x \in {1, 2}, i \in Ends, j \in Ends}
  \union {[D EXCEPT !.op = o, !.how = h, !.xs = <<2, 5>>] : o \in {"EXTEND", "IADD", "ADD", "NEW"},
          h \in {"list", "plist", "tuple", "gen", "genfail", "noniter"}}
  \union {[D EXCEPT !.op = o, !.how = "self"] : o \in {"EXTEND", "IADD", "ADD", "CMP"}}
  \union {[D EXCEPT !.op = "RADD", !.how = h, !.xs = <<2, 5>>] : h \in {"list", "plist", "tuple", "gen"}}
  \union {[D EXCEPT !.op = "CMP", !.how = h, !.xs = x] : h \in {"list", "plist"}, x \in Seqs(3)}
  \union {[D EXCEPT !.op = "SORT", !.how = h] : h \in {"plain", "back", "key", "keyback"}}
  \union {x \in SliceOps : x.i = NN \/ x.i \in -MaxLen - 1..Bound}
Dicts(n) == {PutAll(<<>>, s) : s \in UNION {[1..m -> Vals \X {7, 8}] : m \in 0..n}}
DictOps ==
  Op1({"POPITEM", "CLEAR", "COPY", "LEN", "BOOL"})
  \union {[D EXCEPT !.op = o, !.x = x, !.i = 9] : o \in {"SETK", "GET", "DELK", "SETDEF", "IN", "HASKEY", "POPK"}, x \in 1..3}
  \union {[D EXCEPT !.op = o, !.x = x, !.how = h] : o \in {"GETK"}, x \in 1..3, h \in {"", "missing"}}
  \union {[D EXCEPT !.op = "POPK", !.x = x, !.i = NN] : x \in 1..3}
  \union {[D EXCEPT !.op = "ITEMS", !.how = h] : h \in {"items", "iteritems", "zip", "iter", "getitem"}}
  \union {[D EXCEPT !.op = o, !.how = h] : o \in {"KEYS", "VALUES"}, h \in {"list", "iter"}}
  \union {[D EXCEPT !.op = "UPDATE", !.how = h, !.xs = x] : x \in {<<>>, <<<<2, 9>>, <<4, 9>>>>},
          h \in {"dict", "pdict", "pairs", "gen", "kw", "keys", "btree", "genfail", "pairbad", "noniter", "two", "both"}}
  \union {[D EXCEPT !.op = "NEW", !.how = h, !.xs = <<<<2, 9>>, <<4, 9>>>>] : h \in {"dict", "pdict", "pairs", "gen", "kw", "genfail", "noniter"}}
  \union {[D EXCEPT !.op = o, !.how = "self"] : o \in {"UPDATE", "CMP"}}
  \union {[D EXCEPT !.op = "CMP", !.how = "pdict", !.xs = x] : x \in Dicts(2)}
  \union {[D EXCEPT !.op = "FROMKEYS", !.xs = <<4, 2>>, !.i = 9]}
  \union {[D EXCEPT !.op = "UNHASH", !.f = f] : f \in {"set", "get", "in", "del", "pop", "setdefault"}}
Fs == {"and", "or", "sub", "xor"}
SetOps ==
  Op1({"POP", "CLEAR", "COPY", "ITER", "LEN", "BOOL"})
  \union {[D EXCEPT !.op = o, !.x = x] : o \in {"ADD", "DISCARD", "REMOVE", "IN"}, x \in 1..3}
  \union {[D EXCEPT !.op = o, !.f = f, !.how = h, !.xs = <<2, 3>>] : o \in {"OPER", "IOPER"}, f \in Fs,
          h \in {"pset", "set", "frozenset", "list"}}
  \union {[D EXCEPT !.op = o, !.f = f, !.how = "self"] : o \in {"OPER", "IOPER", "METHOD", "UPDATE"}, f \in Fs}
  \union {[D EXCEPT !.op = "ROPER", !.f = f, !.how = h, !.xs = <<2, 3>>] : f \in Fs, h \in {"set", "frozenset"}}
  \union {[D EXCEPT !.op = o, !.f = f, !.how = h, !.xs = <<2, 3>>] : o \in {"METHOD", "UPDATE"}, f \in Fs,
          h \in {"pset", "set", "list", "gen", "genfail", "noniter"}}
  \union {[D EXCEPT !.op = o, !.f = f, !.how = "pset", !.xs = <<2, 3>>, !.ys = <<1, 2, 4>>] : o \in {"METHOD2", "UPDATE2"}, f \in {"and", "or"}}
  \union {[D EXCEPT !.op = "SUBSET", !.how = h, !.xs = x] : h \in {"pset", "set", "list", "self"}, x \in {<<>>, <<1>>, <<1, 2>>, <<2, 3>>}}
  \union {[D EXCEPT !.op = "CMP", !.how = h, !.xs = x] : h \in {"pset", "self"}, x \in {<<>>, <<1>>, <<1, 2>>, <<2, 3>>}}
  \union {[D EXCEPT !.op = "NEW", !.how = h, !.xs = <<2, 3>>] : h \in {"pset", "list", "gen", "genfail", "noniter"}}
  \union {[D EXCEPT !.op = "UNHASH", !.f = f] : f \in {"add", "in"}}
Ops(kd) == CASE kd = "list" -> ListOps [] kd = "dict" -> DictOps [] OTHER -> SetOps
Judged(kd) == {x \in Ops(kd) : x.op # "SORTERR"}
GInit == kind \in {"list", "dict", "set"} /\ c = <<>>
Grows == {x \in Ops(kind) : x.op \in {"APPEND", "INSERT", "SETK", "ADD", "DELK", "DELI", "SETI", "REMOVE", "IADD", "UPDATE"}}
GNext == \E x \in Grows : \E y \in Outcomes(kind, c, x) : Len(y[3]) <= MaxLen /\ c' = y[3] /\ UNCHANGED kind
GSpec == GInit /\ [][GNext]_gvars
WellFormed(k, s) == CASE k = "dict" -> Cardinality(Keys(s)) = Len(s)
                      [] k = "set" -> s = Seq2(Els(s)) [] OTHER -> TRUE
Total == \A x \in Judged(kind) : Outcomes(kind, c, x) # {} /\ \A y \in Outcomes(kind, c, x) :
           WellFormed(kind, y[3]) /\ (x.op \in Reads(kind) => y[3] = c)
\* slices: taking away what a slice names leaves the rest; a slice put back changes nothing
Laws == kind = "list" =>
  /\ \A i \in Ends, j \in Ends, k \in Steps \ {0} :
       LET p == SliceOf(Len(c), i, j, k)[3]
           got == (CHOOSE y \in Outcomes("list", c, [D EXCEPT !.op = "GETS", !.i = i, !.j = j, !.k = k]) : TRUE)[2]
           set == CHOOSE y \in Outcomes("list", c, [D EXCEPT !.op = "SETS", !.i = i, !.j = j, !.k = k, !.how = "list", !.xs = got]) : TRUE
           del == CHOOSE y \in Outcomes("list", c, [D EXCEPT !.op = "DELS", !.i = i, !.j = j, !.k = k]) : TRUE
       IN set[3] = c /\ Len(del[3]) + Len(got) = Len(c)
EmitOps == \A kd \in {"list", "dict", "set"} : PrintT(<<"GEN", ToJson(<<"ops", kd, Ops(kd)>>)>>)
ASSUME EmitOps
Emit == PrintT(<<"GEN", ToJson(<<"content", kind, c>>)>>)
=============================================================================
