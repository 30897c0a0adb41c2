------------------------------ MODULE PyMirror ------------------------------
(* The Python objects that wrap LvArray's containers (src/python): what each call does to the container, what is   *)
(* refused, what the objects and the NumPy views taken from them show, and the permissions that guard all of it.   *)
(* An operation is a record o with the field op; Does(o) is its effect: v says whether it is done ("yes"),         *)
(* refused ("no") or may be either, x is the container afterwards, r what the call returns.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  kind,      \* which container: a key of Family
  val,       \* its value
  lvl,       \* wrapper slot -> access level, Absent when the slot holds no wrapper
  views      \* view slot -> [on, part, i, w]
vars == <<kind, val, lvl, views>>

Wrappers == {1, 2}
Slots == {1, 2}
Absent == -100
Modifiable == 1
Resizeable == 2
NoView == [on |-> FALSE, part |-> "whole", i |-> 0, w |-> FALSE]

Arrays == {"a1d", "a1i", "a1s", "a2l", "a2d", "a3f"}
Family == [k \in Arrays |-> "arr"] @@ ("str" :> "text") @@ [k \in {"sd", "si"} |-> "sorted"] @@ [k \in {"ai", "ad"} |-> "rows"] @@ [k \in {"ti", "tl"} |-> "sets"]
          @@ [k \in {"md", "mi"} |-> "crs"] @@ ("" :> "none")
Elem == "a1d" :> "f64" @@ "a1i" :> "i32" @@ "a1s" :> "i16" @@ "a2l" :> "i64" @@ "a2d" :> "f64" @@ "a3f" :> "f32" @@ "str" :> "obj" @@ "sd" :> "f64" @@ "si" :> "i32"
        @@ "ai" :> "i32" @@ "ad" :> "f64" @@ "ti" :> "i32" @@ "tl" :> "i64" @@ "md" :> "f64" @@ "mi" :> "i32"
Dims == "a1d" :> 1 @@ "a1i" :> 1 @@ "a1s" :> 1 @@ "a2l" :> 2 @@ "a2d" :> 2 @@ "a3f" :> 3 @@ "str" :> 1
ColumnElem == "md" :> "i32" @@ "mi" :> "i16"
TypeOf == "arr" :> "Array" @@ "text" :> "Array" @@ "sorted" :> "SortedArray" @@ "rows" :> "ArrayOfArrays" @@ "sets" :> "ArrayOfSets" @@ "crs" :> "CRSMatrix" @@ "none" :> ""
PyTypes == <<"Array", "ArrayOfArrays", "ArrayOfSets", "CRSMatrix", "SortedArray">>
fam == Family[kind]

(* ---- element types: NumPy's safe conversions *)
Ints == <<"i8", "i16", "i32", "i64">>
Rank(e) == CASE e \in {"i8", "u8"} -> 1 [] e \in {"i16", "u16"} -> 2 [] e \in {"i32", "u32", "f32"} -> 3 [] e \in {"i64", "u64", "q", "uq", "f64"} -> 4 [] OTHER -> 5
Signed(e) == e \in {"i8", "i16", "i32", "i64", "q"}
Unsigned(e) == e \in {"u8", "u16", "u32", "u64", "uq"}
Real(e) == e \in {"f32", "f64", "ld"}
Safe(from, to) ==
  CASE from = to -> TRUE
    [] from = "bool" -> TRUE
    [] from = "c128" -> FALSE
    [] Signed(from) -> (Signed(to) /\ Rank(from) <= Rank(to)) \/ (Real(to) /\ (Rank(from) < Rank(to) \/ Rank(to) >= 4))
    [] Unsigned(from) -> (Unsigned(to) /\ Rank(from) <= Rank(to)) \/ (Signed(to) /\ Rank(from) < Rank(to)) \/ (Real(to) /\ (Rank(from) < Rank(to) \/ Rank(to) >= 4))
    [] Real(from) -> Real(to) /\ Rank(from) <= Rank(to)
    [] OTHER -> FALSE
(* ---- arguments: a.t how the value is passed, a.e the element type of an array, a.v the values *)
ElemOf(a) == CASE a.t \in {"list", "tuple"} -> (IF a.v = <<>> THEN "f64" ELSE "i64")
               [] a.t = "scalar" -> "i64"
               [] a.t \in {"flist", "fscalar"} -> "f64"
               [] OTHER -> a.e
Impossible == {"2d", "str", "none", "big", "object", "strs"}
Awkward == {"strided", "rev", "ro", "swapped", "unaligned"}    \* NumPy could convert these; LvArray may refuse them
Accepts(a, e) ==
  CASE a.t \in Impossible -> "no"
    [] a.t = "own" -> "either"
    [] ~Safe(ElemOf(a), e) -> "no"
    [] a.t \in Awkward -> "either"
    [] OTHER -> "yes"
Both(a, b) == IF "no" \in {a, b} THEN "no" ELSE IF "either" \in {a, b} THEN "either" ELSE "yes"

(* ---- values *)
Range(s) == {s[i] : i \in DOMAIN s}
Sorted(S) == LET RECURSIVE F(_)
                 F(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y IN <<m>> \o F(T \ {m})
             IN F(S)
RECURSIVE Product(_)
Product(d) == IF d = <<>> THEN 1 ELSE Head(d) * Product(Tail(d))
(* position k (from 0) of a row-major list <-> its indices *)
RECURSIVE Unrank(_, _)
Unrank(k, d) == IF d = <<>> THEN <<>> ELSE LET n == Product(Tail(d)) IN <<k \div n>> \o Unrank(k % n, Tail(d))
RECURSIVE Position(_, _)
Position(m, d) == IF d = <<>> THEN 0 ELSE Head(m) * Product(Tail(d)) + Position(Tail(m), Tail(d))
Insert(s, i, t) == SubSeq(s, 1, i) \o t \o SubSeq(s, i + 1, Len(s))          \* after the first i
Erase(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Zeros(n, z) == [k \in 1 .. n |-> z]
Resized(s, n, z) == IF n <= Len(s) THEN SubSeq(s, 1, n) ELSE s \o Zeros(n - Len(s), z)
ResizedArray(x, n) ==
  LET d == [x.dims EXCEPT ![x.ri + 1] = n]
      old(m) == m[x.ri + 1] < x.dims[x.ri + 1]
  IN [x EXCEPT !.dims = d, !.vals = [k \in 1 .. Product(d) |-> LET m == Unrank(k - 1, d) IN IF old(m) THEN x.vals[Position(m, x.dims) + 1] ELSE 0]]
(* rows of a matrix: cols sorted, ents beside them *)
Find(s, c) == IF c \in Range(s) THEN CHOOSE i \in DOMAIN s : s[i] = c ELSE 0
Before(s, c) == Cardinality({i \in DOMAIN s : s[i] < c})
InsertEntry(x, r, c, v) ==
  IF Find(x.cols[r], c) # 0 THEN x
  ELSE LET p == Before(x.cols[r], c) IN [x EXCEPT !.cols[r] = Insert(x.cols[r], p, <<c>>), !.ents[r] = Insert(x.ents[r], p, <<v>>)]
RemoveEntry(x, r, c) ==
  LET p == Find(x.cols[r], c) IN IF p = 0 THEN x ELSE [x EXCEPT !.cols[r] = Erase(x.cols[r], p), !.ents[r] = Erase(x.ents[r], p)]
AddEntry(x, r, c, v) == LET p == Find(x.cols[r], c) IN [x EXCEPT !.ents[r][p] = x.ents[r][p] + v]
RECURSIVE InsertEntries(_, _, _, _), RemoveEntries(_, _, _), AddEntries(_, _, _, _)
InsertEntries(x, r, cs, vs) == IF cs = <<>> THEN x ELSE InsertEntries(InsertEntry(x, r, Head(cs), Head(vs)), r, Tail(cs), Tail(vs))
RemoveEntries(x, r, cs) == IF cs = <<>> THEN x ELSE RemoveEntries(RemoveEntry(x, r, Head(cs)), r, Tail(cs))
AddEntries(x, r, cs, vs) == IF cs = <<>> THEN x ELSE AddEntries(AddEntry(x, r, Head(cs), Head(vs)), r, Tail(cs), Tail(vs))
ResizedMatrix(x, nr, nc) == [x EXCEPT !.nc = nc, !.cols = Resized(x.cols, nr, <<>>), !.ents = Resized(x.ents, nr, <<>>)]
Dense(x) == [k \in 1 .. Len(x.cols) * x.nc |-> LET r == (k - 1) \div x.nc + 1
                                                   p == Find(x.cols[r], (k - 1) % x.nc) IN IF p = 0 THEN 0 ELSE x.ents[r][p]]
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

(* ---- text: is a sequence of bytes valid UTF-8? (only lead bytes of two-byte characters occur) *)
RECURSIVE Utf8(_)
Utf8(b) == b = <<>> \/ (Head(b) < 128 /\ Utf8(Tail(b))) \/ (Len(b) > 1 /\ b[1] \in 194 .. 223 /\ b[2] \in 128 .. 191 /\ Utf8(SubSeq(b, 3, Len(b))))

(* ---- what a wrapper shows *)
Shown == CASE fam = "text" -> (IF \A i \in DOMAIN val : Utf8(val[i]) THEN [err |-> "", x |-> val] ELSE [err |-> "UnicodeDecodeError", x |-> <<>>])
           [] fam = "crs" -> [nc |-> val.nc, cols |-> val.cols, ents |-> val.ents]
           [] OTHER -> val
ShownView(v) ==
  CASE v.part = "whole" -> (IF fam = "arr" THEN <<val.dims, val.vals>> ELSE <<<<Len(val)>>, val>>)
    [] v.part = "row" -> <<<<Len(val[v.i])>>, val[v.i]>>
    [] v.part = "cols" -> <<<<Len(val.cols[v.i])>>, val.cols[v.i]>>
    [] v.part = "ents" -> <<<<Len(val.ents[v.i])>>, val.ents[v.i]>>
    [] v.part = "sp" -> <<<<Len(val.cols), val.nc>>, IF val.nc = 0 THEN <<>> ELSE Dense(val)>>

(* ---- effects *)
Refused == [v |-> "no", x |-> val, r |-> 0]
Done(x, r) == [v |-> "yes", x |-> x, r |-> r]
If(verdict, x, r) == [v |-> verdict, x |-> x, r |-> r]

(* calls of methods; o.i the integers and o.args the objects passed, o.bad # 0 something about the call is malformed *)
InArray(o) ==
  CASE o.m = "resize" -> (IF o.i[1] < 0 THEN Refused ELSE Done(IF fam = "text" THEN Resized(val, o.i[1], <<>>) ELSE ResizedArray(val, o.i[1]), 0))
    [] o.m = "set_single_parameter_resize_index" ->
         (IF o.i[1] \notin 0 .. Dims[kind] - 1 THEN Refused ELSE Done(IF fam = "text" THEN val ELSE [val EXCEPT !.ri = o.i[1]], 0))
    [] OTHER -> Refused
(* resize_all discards the values, so its result is a set of possibilities: see ResizeAll *)
InSorted(o) ==
  LET a == o.args[1]
      s == Range(a.v)
  IN CASE Accepts(a, Elem[kind]) = "no" -> Refused
       [] o.m = "insert" -> If(Accepts(a, Elem[kind]), Sorted(Range(val) \cup s), Cardinality(s \ Range(val)))
       [] o.m = "remove" -> If(Accepts(a, Elem[kind]), Sorted(Range(val) \ s), Cardinality(s \cap Range(val)))
Values(a) == IF a.t = "own" THEN (IF fam = "crs" THEN val.ents[a.i + 1] ELSE val[a.i + 1]) ELSE a.v
InRows(o) ==
  CASE o.m = "insert" -> (IF o.i[1] \notin 0 .. Len(val) \/ Accepts(o.args[1], Elem[kind]) = "no" THEN Refused
                          ELSE If(Accepts(o.args[1], Elem[kind]), Insert(val, o.i[1], <<Values(o.args[1])>>), 0))
    [] o.m = "insert_into" -> (IF o.i[1] \notin 0 .. Len(val) - 1 THEN Refused
                               ELSE IF o.i[2] \notin 0 .. Len(val[o.i[1] + 1]) \/ Accepts(o.args[1], Elem[kind]) = "no" THEN Refused
                               ELSE If(Accepts(o.args[1], Elem[kind]), [val EXCEPT ![o.i[1] + 1] = Insert(@, o.i[2], Values(o.args[1]))], 0))
    [] o.m = "erase_from" -> (IF o.i[1] \notin 0 .. Len(val) - 1 THEN Refused
                              ELSE IF o.i[2] \notin 0 .. Len(val[o.i[1] + 1]) - 1 THEN Refused
                              ELSE Done([val EXCEPT ![o.i[1] + 1] = Erase(@, o.i[2] + 1)], 0))
InSets(o) ==
  CASE o.m = "insert" -> (IF o.i[1] \notin 0 .. Len(val) \/ (Len(o.i) = 2 /\ o.i[2] < 0) THEN Refused ELSE Done(Insert(val, o.i[1], <<<<>>>>), 0))
    [] o.i[1] \notin 0 .. Len(val) - 1 \/ Accepts(o.args[1], Elem[kind]) = "no" -> Refused
    [] OTHER -> LET s == Range(o.args[1].v)
                    k == o.i[1] + 1
                    old == Range(val[k])
                IN IF o.m = "insert_into" THEN If(Accepts(o.args[1], Elem[kind]), [val EXCEPT ![k] = Sorted(old \cup s)], Cardinality(s \ old))
                   ELSE If(Accepts(o.args[1], Elem[kind]), [val EXCEPT ![k] = Sorted(old \ s)], Cardinality(s \cap old))
InMatrix(o) ==
  LET n == Len(val.cols) IN
  CASE o.m = "resize" -> (IF \E k \in DOMAIN o.i : o.i[k] < 0 THEN Refused ELSE Done(ResizedMatrix(val, o.i[1], o.i[2]), 0))
    [] o.m = "compress" -> Done(val, 0)
    [] o.i[1] \notin 0 .. n - 1 \/ Accepts(o.args[1], ColumnElem[kind]) = "no" -> Refused
    [] o.m = "remove_nonzeros" -> LET y == RemoveEntries(val, o.i[1] + 1, o.args[1].v)
                                  IN If(Accepts(o.args[1], ColumnElem[kind]), y, Len(val.cols[o.i[1] + 1]) - Len(y.cols[o.i[1] + 1]))
    [] Accepts(o.args[2], Elem[kind]) = "no" \/ Len(o.args[1].v) # Len(Values(o.args[2])) -> Refused
    [] OTHER -> LET verdict == Both(Accepts(o.args[1], ColumnElem[kind]), Accepts(o.args[2], Elem[kind]))
                    r == o.i[1] + 1
                    y == IF o.m = "insert_nonzeros" THEN InsertEntries(val, r, o.args[1].v, Values(o.args[2])) ELSE AddEntries(val, r, o.args[1].v, Values(o.args[2]))
                IN If(verdict, y, IF o.m = "insert_nonzeros" THEN Len(y.cols[r]) - Len(val.cols[r]) ELSE 0)
InPython(o) ==
  IF o.bad # 0 \/ lvl[o.w] < Resizeable THEN Refused
  ELSE CASE fam \in {"arr", "text"} -> InArray(o) [] fam = "sorted" -> InSorted(o) [] fam = "rows" -> InRows(o) [] fam = "sets" -> InSets(o) [] fam = "crs" -> InMatrix(o)

(* what C++ code does to the container behind the wrappers' backs *)
Native(o) ==
  CASE fam = "arr" -> (CASE o.do = "set" -> [val EXCEPT !.vals[Position(SubSeq(o.i, 1, Len(o.i) - 1), val.dims) + 1] = o.i[Len(o.i)]]
                         [] o.do = "resize" -> ResizedArray(val, o.i[1])
                         [] o.do = "shape" -> [val EXCEPT !.dims = o.i, !.vals = Zeros(Product(o.i), 0)]
                         [] o.do = "push" -> [val EXCEPT !.dims = <<@[1] + 1>>, !.vals = Append(@, o.i[1])])
    [] fam = "text" -> Resized(val, o.i[1], <<>>)
    [] fam = "sorted" -> (CASE o.do = "insert" -> Sorted(Range(val) \cup {o.i[1]}) [] o.do = "remove" -> Sorted(Range(val) \ {o.i[1]}) [] o.do = "clear" -> <<>>)
    [] fam = "rows" -> (CASE o.do = "append" -> Append(val, o.i)
                          [] o.do = "push" -> [val EXCEPT ![o.i[1] + 1] = Append(@, o.i[2])]
                          [] o.do = "set" -> [val EXCEPT ![o.i[1] + 1][o.i[2] + 1] = o.i[3]]
                          [] o.do = "erase" -> Erase(val, o.i[1] + 1)
                          [] o.do = "compress" -> val)
    [] fam = "sets" -> (CASE o.do = "append" -> Append(val, <<>>)
                          [] o.do = "insert" -> [val EXCEPT ![o.i[1] + 1] = Sorted(Range(@) \cup {o.i[2]})]
                          [] o.do = "remove" -> [val EXCEPT ![o.i[1] + 1] = Sorted(Range(@) \ {o.i[2]})]
                          [] o.do = "erase" -> Erase(val, o.i[1] + 1)
                          [] o.do = "compress" -> val)
    [] fam = "crs" -> (CASE o.do = "insert" -> InsertEntry(val, o.i[1] + 1, o.i[2], o.i[3])
                         [] o.do = "remove" -> RemoveEntry(val, o.i[1] + 1, o.i[2])
                         [] o.do = "set" -> [val EXCEPT !.ents[o.i[1] + 1][o.i[2] + 1] = o.i[3]]
                         [] o.do = "resize" -> ResizedMatrix(val, o.i[1], o.i[2])
                         [] o.do = "compress" -> val)

(* indices of the sequence protocol count from the end when negative *)
FromEnd(i) == IF i < 0 THEN i + Len(val) ELSE i
Item(o) ==
  CASE o.how = "len" -> Done(val, Len(val))
    [] o.how = "del" -> (IF lvl[o.w] < Resizeable \/ FromEnd(o.i) \notin 0 .. Len(val) - 1 THEN Refused ELSE Done(Erase(val, FromEnd(o.i) + 1), 0))
    [] OTHER -> Refused

(* ---- views *)
CanLook(o) ==
  CASE o.part = "whole" -> fam \in {"arr", "sorted"}
    [] o.part = "row" -> FromEnd(o.i) \in 0 .. Len(val) - 1
    [] o.part \in {"cols", "ents"} -> o.i \in 0 .. Len(val.cols) - 1
    [] o.part = "sp" -> val.comp = 1 /\ Len(val.cols) > 0
Writeable(o) == lvl[o.w] >= Modifiable /\ fam \notin {"sorted", "sets"} /\ o.part # "cols"
NewView(o) == [on |-> TRUE, part |-> o.part, i |-> IF o.part = "row" THEN FromEnd(o.i) + 1 ELSE o.i + 1, w |-> Writeable(o)]
(* the container after writing value y at position k (from 0) of view v *)
RECURSIVE PokeFlat(_, _, _)
PokeFlat(ss, k, y) == IF k < Len(Head(ss)) THEN <<[Head(ss) EXCEPT ![k + 1] = y]>> \o Tail(ss) ELSE <<Head(ss)>> \o PokeFlat(Tail(ss), k - Len(Head(ss)), y)
Poked(v, k, y) ==
  CASE v.part = "whole" -> [val EXCEPT !.vals[k + 1] = y]
    [] v.part = "row" -> [val EXCEPT ![v.i][k + 1] = y]
    [] v.part = "ents" -> [val EXCEPT !.ents[v.i][k + 1] = y]
    [] v.part = "sp" -> [val EXCEPT !.ents = PokeFlat(@, k, y)]

(* ---- the operations as actions; done says whether a call that may be refused was carried out *)
NoViews == [s \in Slots |-> NoView]
(* Storage facts the abstract value leaves open: whether a matrix has gaps between its rows. *)
Settle(x, comp) == IF fam = "crs" THEN [x EXCEPT !.comp = comp] ELSE x
Change(x, comp, ends) ==
  /\ val' = Settle(x, comp)
  /\ views' = IF ends THEN NoViews ELSE views
  /\ UNCHANGED kind
KeepsViews == {"add_to_row", "set_single_parameter_resize_index"}
Call(o, done, comp) ==
  LET d == InPython(o) IN
  /\ done \in (CASE d.v = "yes" -> {TRUE} [] d.v = "no" -> {FALSE} [] OTHER -> BOOLEAN)
  /\ IF done THEN Change(d.x, comp, o.m \notin KeepsViews) ELSE UNCHANGED <<kind, val, views>>
  /\ done /\ o.m = "compress" => comp = 1
  /\ UNCHANGED lvl
ResizeAll(o, done, vals) ==
  LET a == o.args[1]
      fits == o.bad = 0 /\ lvl[o.w] >= Resizeable /\ Accepts(a, "q") # "no"
      legal == IF fits THEN Len(a.v) = Dims[kind] /\ \A k \in DOMAIN a.v : a.v[k] >= 0 ELSE FALSE
  IN /\ done \in (IF ~legal THEN {FALSE} ELSE IF Accepts(a, "q") = "either" THEN BOOLEAN ELSE {TRUE})
     /\ IF done THEN /\ IF fam = "text" THEN Len(vals) = a.v[1] /\ Change(vals, 0, TRUE)
                        ELSE Len(vals) = Product(a.v) /\ Change([val EXCEPT !.dims = a.v, !.vals = vals], 0, TRUE)
        ELSE UNCHANGED <<kind, val, views>>
     /\ UNCHANGED lvl
DelItem(o, done, comp) ==
  /\ done = (Item(o).v = "yes")
  /\ IF done THEN Change(Item(o).x, comp, o.how = "del") ELSE UNCHANGED <<kind, val, views>>
  /\ UNCHANGED lvl
InCxx(o, comp) == Change(Native(o), comp, o.do # "set") /\ UNCHANGED lvl /\ (o.do = "compress" /\ fam = "crs" => comp = 1)
Push(text) == Change(Append(val, text), 0, TRUE) /\ UNCHANGED lvl
Wrap(w) == lvl' = [lvl EXCEPT ![w] = 0] /\ UNCHANGED <<kind, val, views>>
Drop(w) == lvl[w] # Absent /\ lvl' = [lvl EXCEPT ![w] = Absent] /\ UNCHANGED <<kind, val, views>>
HasSpaces == fam \in {"arr", "text", "sorted", "crs"}
LevelOk(o) == o.how = "one" \/ (o.how = "cpu" /\ HasSpaces)
SetLevel(o, done) ==
  /\ done = LevelOk(o)
  /\ lvl' = IF done THEN [lvl EXCEPT ![o.w] = o.v] ELSE lvl
  /\ UNCHANGED <<kind, val, views>>
Look(o, done) ==
  /\ done = CanLook(o)
  /\ views' = IF done THEN [views EXCEPT ![o.s] = NewView(o)] ELSE views
  /\ UNCHANGED <<kind, val, lvl>>
(* Only views that were taken with permission to modify can be written to. *)
Poke(o, done) ==
  /\ views[o.s].on
  /\ done = views[o.s].w
  /\ val' = IF done THEN Poked(views[o.s], o.k, o.v) ELSE val
  /\ UNCHANGED <<kind, lvl, views>>
Forget(s) == views' = [views EXCEPT ![s] = NoView] /\ UNCHANGED <<kind, val, lvl>>
(* C++ calls a Python function with the container: the function gets a new wrapper, which can only read. *)
Apply(o, done) ==
  /\ done = (o.how \in {"ok", "keep", "level"})
  /\ lvl' = IF o.how = "keep" THEN [lvl EXCEPT ![o.w] = 0] ELSE IF o.how = "level" THEN [lvl EXCEPT ![o.w] = 2] ELSE lvl
  /\ UNCHANGED <<kind, val, views>>
Start(k, x) == kind' = k /\ val' = x /\ lvl' = [w \in Wrappers |-> Absent] /\ views' = NoViews

Type ==
  /\ \A w \in Wrappers : lvl[w] \in Int
  /\ \A s \in Slots : views[s].on => views[s].part \in {"whole", "row", "cols", "ents", "sp"}
(* what the containers promise however Python uses them *)
Increasing(s) == \A i, j \in DOMAIN s : i < j => s[i] < s[j]
Ordered ==
  /\ fam = "sorted" => Increasing(val)
  /\ fam = "sets" => \A i \in DOMAIN val : Increasing(val[i])
  /\ fam = "crs" => \A r \in DOMAIN val.cols : Increasing(val.cols[r]) /\ Len(val.ents[r]) = Len(val.cols[r])
  /\ fam = "arr" => Len(val.vals) = Product(val.dims)
(* every living view shows something *)
ViewsHold == \A s \in Slots : views[s].on => LET x == ShownView(views[s]) IN Len(x[2]) = Product(x[1])
=============================================================================
