----------------------------- MODULE PyMirrorMC -----------------------------
EXTENDS PyMirror, Json
CONSTANTS
  Kinds,
  MaxDepth,   \* how many free steps after the prefix
  Wide        \* every way to pass arguments, well formed or not

VARIABLE path
(* ---- every history starts by filling the container and taking two wrappers, one that may do everything and one that may modify *)
N(do, i) == [op |-> "native", do |-> do, i |-> i]
Fill(k) ==
  CASE Family[k] = "arr" /\ Dims[k] = 1 -> <<N("shape", <<3>>), N("set", <<0, 4>>), N("set", <<2, 5>>)>>
    [] Family[k] = "arr" /\ Dims[k] = 2 -> <<N("shape", <<2, 3>>), N("set", <<0, 1, 4>>), N("set", <<1, 2, 5>>)>>
    [] Family[k] = "arr" /\ Dims[k] = 3 -> <<N("shape", <<2, 1, 2>>), N("set", <<0, 0, 1, 4>>), N("set", <<1, 0, 1, 5>>)>>
    [] Family[k] = "text" -> <<[op |-> "text", s |-> <<97, 98>>], [op |-> "text", s |-> <<>>]>>
    [] Family[k] = "sorted" -> <<N("insert", <<3>>), N("insert", <<1>>)>>
    [] Family[k] = "rows" -> <<N("append", <<4, 3>>), N("append", <<>>), N("append", <<7>>)>>
    [] Family[k] = "sets" -> <<N("append", <<2>>), N("append", <<0>>), N("insert", <<0, 4>>), N("insert", <<0, 2>>), N("insert", <<1, 7>>)>>
    [] Family[k] = "crs" -> <<N("resize", <<2, 4, 2>>), N("insert", <<0, 3, 8>>), N("insert", <<0, 1, 7>>), N("insert", <<1, 0, 6>>)>>
Prefix(k) == Fill(k) \o <<[op |-> "wrap", w |-> 1], [op |-> "level", w |-> 1, v |-> 2, how |-> "one"], [op |-> "wrap", w |-> 2], [op |-> "level", w |-> 2, v |-> 1, how |-> "one"]>>
Nothing(k) == CASE Family[k] = "arr" -> [dims |-> [i \in 1 .. Dims[k] |-> 0], vals |-> <<>>, ri |-> 0]
                [] Family[k] = "crs" -> [nc |-> 0, cols |-> <<>>, ents |-> <<>>, comp |-> 1]
                [] OTHER -> <<>>
Taken == Len(path) - 1 - Len(Prefix(kind))     \* how many free steps were taken
Op(o) == path' = Append(path, o)

(* ---- arguments *)
A(t, e, v) == [t |-> t, e |-> e, v |-> v]
Good(e, v) == A("np", e, v)
Ways == {"list", "tuple", "flist", "part", "strided", "rev", "ro", "swapped", "unaligned", "2d", "str", "none", "big", "object", "strs"}
Others == {"i16", "i64", "f64", "c128", "u8"}
Singles == {"scalar", "fscalar", "np0", "npscalar"}
(* all the ways to pass the values; LvArray may refuse some, so nothing can follow those *)
Args(e, v) == {Good(e, v)} \cup (IF ~Wide THEN {} ELSE {A(t, e, v) : t \in Ways} \cup {Good(f, v) : f \in Others \ {e}} \cup (IF Len(v) = 1 THEN {A(t, e, v) : t \in Singles} ELSE {}))
ArgsOf(e, vs) == UNION {Args(e, v) : v \in vs}
Py(w, m, i, args, bad) == [op |-> "py", w |-> w, m |-> m, i |-> i, args |-> args, bad |-> bad]
Comps == IF fam = "crs" THEN {2} ELSE {0}      \* whether rows have gaps afterwards is not determined
Do(o) == /\ \E done \in BOOLEAN : \E comp \in (IF o.m = "compress" THEN {1} ELSE Comps) : Call(o, done, comp)
         /\ Op(o)
E == Elem[kind]
Malformed(w, m, i, args) == Wide /\ \E bad \in 1 .. 5 :
  /\ bad \in {1, 5} => i # <<>>
  /\ bad = 4 => m # "resize" /\ ~(m = "insert" /\ fam = "sets")
  /\ i # <<>> \/ args # <<>>
  /\ Do(Py(w, m, i, args, bad))
ArrayCalls(w) ==
  \/ \E n \in {-1, 0, 2, 4} : Do(Py(w, "resize", <<n>>, <<>>, 0))
  \/ \E n \in 0 .. Dims[kind] : Do(Py(w, "set_single_parameter_resize_index", <<n>>, <<>>, 0))
  \/ \E d \in {[k \in 1 .. Dims[kind] |-> 2], [k \in 1 .. Dims[kind] |-> k % 2], [k \in 1 .. Dims[kind] |-> IF k = 1 THEN 3 ELSE 1]} \cup
             (IF Wide THEN {[k \in 1 .. Dims[kind] |-> -1], [k \in 1 .. Dims[kind] + 1 |-> 1], <<>>} ELSE {}) :
     \E a \in Args("i64", d) : \E done \in BOOLEAN :
       LET o == Py(w, "resize_all", <<>>, <<a>>, 0) IN ResizeAll(o, done, IF fam = "text" THEN [k \in 1 .. d[1] |-> <<>>] ELSE Zeros(Product(d), 0)) /\ Op(o)
  \/ Malformed(w, "resize", <<1>>, <<>>)
SortedCalls(w) ==
  \/ \E m \in {"insert", "remove"}, a \in ArgsOf(E, {<<2>>, <<5, 1, 5>>, <<>>}) : Do(Py(w, m, <<>>, <<a>>, 0))
  \/ Malformed(w, "insert", <<>>, <<Good(E, <<2>>)>>)
Rows == 0 .. Len(val) - 1
MoreRows == IF Wide THEN {-1, Len(val), Len(val) + 1} ELSE {Len(val)}
Own(w) == IF Wide THEN {[t |-> "own", w |-> w, i |-> i] : i \in Rows} ELSE {}
RowsCalls(w) ==
  \/ \E i \in Rows \cup MoreRows, a \in ArgsOf(E, {<<9>>, <<6, 8>>, <<>>}) \cup Own(w) : Do(Py(w, "insert", <<i>>, <<a>>, 0))
  \/ \E i \in Rows \cup MoreRows, a \in ArgsOf(E, {<<9>>, <<6, 8>>}) \cup Own(w) : \E j \in {0, 1, -1, 2, 3} : Do(Py(w, "insert_into", <<i, j>>, <<a>>, 0))
  \/ \E i \in Rows \cup MoreRows : \E j \in {-1, 0, 1} : Do(Py(w, "erase_from", <<i, j>>, <<>>, 0))
  \/ Malformed(w, "insert_into", <<0, 0>>, <<Good(E, <<2>>)>>)
SetsCalls(w) ==
  \/ \E i \in Rows \cup MoreRows, k \in {-1, 0, 2} : Do(Py(w, "insert", IF k = 0 THEN <<i>> ELSE <<i, k>>, <<>>, 0))
  \/ \E i \in Rows \cup MoreRows, m \in {"insert_into", "erase_from"}, a \in ArgsOf(E, {<<2>>, <<5, 4, 5>>, <<>>}) : Do(Py(w, m, <<i>>, <<a>>, 0))
  \/ Malformed(w, "insert_into", <<0>>, <<Good(E, <<2>>)>>)
MRows == 0 .. Len(val.cols) - 1
MMore == IF Wide THEN {-1, Len(val.cols)} ELSE {Len(val.cols)}
C == ColumnElem[kind]
MatrixCalls(w) ==
  \/ Do(Py(w, "compress", <<>>, <<>>, 0))
  \/ \E n \in {1, 3, -1} : Do(Py(w, "resize", IF n = 3 THEN <<n, 5, 2>> ELSE <<n, 4>>, <<>>, 0))
  \/ \E i \in MRows \cup MMore : \E cs \in {<<2>>, <<1, 0>>, <<3, 3>>, <<>>} : \E c \in Args(C, cs), short \in BOOLEAN :
       \/ /\ ~short
          /\ Do(Py(w, "remove_nonzeros", <<i>>, <<c>>, 0))
       \/ \E v \in {Good(E, [k \in 1 .. Len(cs) |-> k])} \cup (IF c.t = "np" /\ c.e = C THEN Args(E, [k \in 1 .. Len(cs) |-> 5 + k]) ELSE {}) :
          (IF short THEN Wide ELSE TRUE) /\
          LET vs == IF short THEN [v EXCEPT !.v = Append(@, 1)] ELSE v IN
          \/ (~short \/ v.t \notin Singles) /\ Do(Py(w, "insert_nonzeros", <<i>>, <<c, vs>>, 0))
          \/ /\ ~short \/ v.t \notin Singles
             /\ IF i \in MRows THEN \A k \in DOMAIN cs : cs[k] \in Range(val.cols[i + 1]) ELSE TRUE
             /\ Do(Py(w, "add_to_row", <<i>>, <<c, vs>>, 0))
  \/ Malformed(w, "insert_nonzeros", <<0>>, <<Good(C, <<2>>), Good(E, <<2>>)>>)
Calls(w) == CASE fam \in {"arr", "text"} -> ArrayCalls(w) [] fam = "sorted" -> SortedCalls(w) [] fam = "rows" -> RowsCalls(w) [] fam = "sets" -> SetsCalls(w) [] fam = "crs" -> MatrixCalls(w)

Cxx(do, i) == LET o == N(do, i) IN (\E comp \in (IF do = "compress" /\ fam = "crs" THEN {1} ELSE Comps) : InCxx(o, comp)) /\ Op(o)
Behind ==
  CASE fam = "arr" -> Cxx("resize", <<1>>) \/ Cxx("shape", [k \in 1 .. Dims[kind] |-> 2])
    [] fam = "text" -> \E s \in {<<195, 169>>, <<120, 0>>, <<255>>} : LET o == [op |-> "text", s |-> s] IN Push(s) /\ Op(o)
    [] fam = "sorted" -> Cxx("insert", <<2>>) \/ Cxx("clear", <<>>)
    [] fam = "rows" -> Cxx("append", <<1, 2>>) \/ (Len(val) > 1 /\ Cxx("erase", <<1>>))
    [] fam = "sets" -> Cxx("append", <<0>>) \/ (Len(val) > 1 /\ Cxx("erase", <<1>>))
    [] fam = "crs" -> Cxx("compress", <<>>) \/ (Len(val.cols) > 1 /\ Cxx("insert", <<1, 2, 9>>))
LookAt(w, s, part, i) ==
  LET o == [op |-> "look", w |-> w, s |-> s, part |-> part, i |-> i] IN
  /\ part = "sp" => val.comp = 1 \/ ~views[s].on
  /\ \E done \in BOOLEAN : Look(o, done)
  /\ Op(o)
Looks(w) ==
  CASE fam \in {"arr", "sorted"} -> \E s \in Slots : LookAt(w, s, "whole", 0)
    [] fam = "text" -> FALSE
    [] fam \in {"rows", "sets"} -> \E i \in (Rows \cap {0, 2}) \cup {-1} \cup MoreRows : LookAt(w, 1, "row", i)
    [] fam = "crs" -> \/ \E i \in MRows \cup MMore, p \in {"cols", "ents"} : LookAt(w, 1, p, i)
                      \/ LookAt(w, 2, "sp", 0)
Size(v) == IF v.part = "sp" THEN Len(Concat(val.ents)) ELSE Product(ShownView(v)[1])
Pokes == \E s \in Slots : \E k \in {0, 1} :
           /\ IF views[s].on THEN k < Size(views[s]) ELSE FALSE
           /\ LET o == [op |-> "poke", s |-> s, k |-> k, v |-> 3] IN (\E done \in BOOLEAN : Poke(o, done)) /\ Op(o)
Items(w) == fam \in {"rows", "sets"} /\
  \E how \in {"len", "del", "set", "slice", "text", "add", "mul", "attr"} : \E i \in {0, -1} \cup (IF how = "del" THEN MoreRows ELSE {}) :
     (how # "del" => i = 0 /\ Wide) /\ LET o == [op |-> "item", w |-> w, how |-> how, i |-> i] IN (\E done \in BOOLEAN : DelItem(o, done, 0)) /\ Op(o)
Levels(w) == \E v \in {-1, 0, 1, 2, 3}, how \in {"one", "cpu", "elsewhere", "text", "huge", "none"} :
  /\ v \in {-1, 3} \/ how # "one" => Wide
  /\ LET o == [op |-> "level", w |-> w, v |-> v, how |-> how] IN (\E done \in BOOLEAN : SetLevel(o, done)) /\ Op(o)
Forced(o) ==
  /\ CASE o.op = "native" -> InCxx(o, IF fam = "crs" THEN 2 ELSE 0)
       [] o.op = "text" -> Push(o.s)
       [] o.op = "wrap" -> Wrap(o.w)
       [] o.op = "level" -> SetLevel(o, TRUE)
  /\ Op(o)
Init == kind \in Kinds /\ val = Nothing(kind) /\ lvl = [w \in Wrappers |-> Absent] /\ views = NoViews /\ path = <<[op |-> "kinds", kinds |-> <<kind>>]>>
Next ==
  IF Taken < 0 THEN Forced(Prefix(kind)[Len(path)])
  ELSE Taken < MaxDepth /\
 (\/ \E w \in Wrappers :
     \/ Wrap(w) /\ Op([op |-> "wrap", w |-> w])
     \/ lvl[w] # Absent /\
        \/ Drop(w) /\ Op([op |-> "drop", w |-> w])
        \/ Levels(w)
        \/ Calls(w)
        \/ Looks(w)
        \/ Items(w)
     \/ \E how \in {"ok", "raise", "keep", "level", "notfun", "wrongargs"} :
          LET o == [op |-> "call", w |-> w, how |-> how] IN (how \in {"keep", "level"} \/ (w = 1 /\ Wide)) /\ (\E done \in BOOLEAN : Apply(o, done)) /\ Op(o)
  \/ Behind
  \/ Pokes
  \/ \E s \in Slots : views[s].on /\ Forget(s) /\ Op([op |-> "forget", s |-> s]))
Spec == Init /\ [][Next]_<<vars, path>>
View == <<vars, Taken, IF Taken > 0 THEN path[Len(path)] ELSE <<>>>>
Emit == PrintT("@" \o ToJson(path'))
(* ---- what the permissions promise *)
Act == path'[Len(path')]
Guarded ==
  [][path' # path /\ Act.op \in {"py", "item"} => (val' # val \/ views' # views => lvl[Act.w] >= Resizeable)]_<<vars, path>>
Untouchable ==
  [][path' # path /\ Act.op = "poke" => (val' # val => views[Act.s].w)]_<<vars, path>>
ReadOnlyFirst ==
  [][path' # path /\ Act.op = "look" => (views'[Act.s].w /\ views' # views => lvl[Act.w] >= Modifiable)]_<<vars, path>>
(* Looking, asking and permissions never change the container; nothing but resizing ends a view. *)
Harmless ==
  [][path' # path /\ Act.op \in {"wrap", "drop", "level", "look", "forget", "call"} => val' = val /\ kind' = kind]_<<vars, path>>
=============================================================================
