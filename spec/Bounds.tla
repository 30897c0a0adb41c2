------------------------------- MODULE Bounds -------------------------------
(* Which calls are invalid, and what has to happen then. A build may check bounds and may be a debug build. Every call *)
(* that is checked has a set of reasons against it: "always" ones are reported in every build, "bounds" ones where      *)
(* bounds are checked, and "debug" ones in debug builds. A call is reported if and only if one of the reasons against   *)
(* it is one that this build checks, and a call that is reported changes nothing.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES shape, checks
vars == <<shape, checks>>
(* A shape: dims (multidimensional arrays), rows and caps (contents and capacity of every row), cols, most (the largest column number) *)
In(i, n) == 0 <= i /\ i < n
To(i, n) == 0 <= i /\ i <= n
Rising(v) == \A i \in 1..(Len(v) - 1) : v[i] < v[i + 1]
Set(x) == {x[i] : i \in 1..Len(x)}
Why(fine, level) == IF fine THEN {} ELSE {level}
N(s) == Len(s.rows)
Row(s, i) == s.rows[i + 1]
Size(s, i) == Len(s.rows[i + 1])
Room(s, i) == s.caps[i + 1] - Size(s, i)
Total(s) == Len(s.rows[1])
RECURSIVE Before(_, _)
Before(lens, i) == IF i = 1 THEN 0 ELSE lens[i - 1] + Before(lens, i - 1)
Segment(lens, vs, i) == SubSeq(vs, Before(lens, i) + 1, Before(lens, i) + lens[i])
View(c) == c.via \in {"view", "viewSizes"}
(* adding the values vs to the set i *)
Fits(s, c, vs) == ~View(c) \/ Cardinality(Set(Row(s, c.i)) \cup Set(vs)) <= s.caps[c.i + 1]
Columns(s, vs) == Why(\A v \in Set(vs) : In(v, s.cols), "bounds")
(* a reason that only makes sense when there is none against the row *)
RowAnd(s, c, why) == IF In(c.i, N(s)) THEN why ELSE {"bounds"}

Against(s, c) ==
  CASE c.op \in {"at", "linear"}    -> Why(\A d \in 1..Len(s.dims) : In(c.idx[d], s.dims[d]), "bounds")
    [] c.op \in {"extent", "step"}  -> Why(In(c.d, Len(s.dims) - c.depth), "bounds")
    [] c.op = "resizeIndex"         -> Why(In(c.d, Len(s.dims)), "always")
    [] c.op = "reshape"             -> Why(\A d \in 1..Len(c.dims) : c.dims[d] >= 0, "always")
    [] c.op = "manyDims"            -> Why(Len(c.dims) = Len(s.dims) /\ \A d \in 1..Len(c.dims) : c.dims[d] >= 0, "always")
    \* one-dimensional arrays: the only row
    [] c.op = "insert"              -> Why(To(c.p, Total(s)), "bounds")
    [] c.op = "erase"               -> Why(In(c.p, Total(s)), "bounds")
    [] c.op = "pop"                 -> Why(Total(s) > 0, "debug")
    [] c.op = "length"              -> Why(c.n >= 0, "always")
    \* sorted arrays
    [] c.op = "element"             -> Why(In(c.p, Total(s)), "bounds")
    [] c.op \in {"include", "exclude"} -> Why(Rising(c.vs), "bounds")
    \* buffers with a separate size
    [] c.op = "bufferCheck"         -> Why(To(c.n, s.caps[1]), "bounds")
    [] c.op = "bufferInsert"        -> Why(To(c.n, s.caps[1]) /\ To(c.p, c.n), "bounds")
    [] c.op = "bufferErase"         -> Why(To(c.n, s.caps[1]) /\ In(c.p, c.n), "bounds")
    \* rows of any kind
    [] c.op = "row"                 -> Why(In(c.i, N(s)), "bounds")
    [] c.op = "value"               -> RowAnd(s, c, Why(In(c.j, Size(s, c.i)), "bounds"))
    [] c.op \in {"append", "appendAtomic"} -> RowAnd(s, c, Why(~View(c) \/ Room(s, c.i) >= c.n, "bounds"))
    [] c.op = "insertInto"          -> RowAnd(s, c, Why(To(c.j, Size(s, c.i)) /\ (View(c) => Room(s, c.i) >= c.n), "bounds"))
    [] c.op = "eraseFrom"           -> RowAnd(s, c, Why(In(c.j, Size(s, c.i)) /\ c.j + c.n <= Size(s, c.i), "bounds") \cup Why(c.n >= 0, "debug"))
    [] c.op = "newRow"              -> Why(To(c.i, N(s)), "bounds") \cup Why(c.n >= 0, "debug")
    [] c.op = "rowLength"           -> RowAnd(s, c, Why(c.n >= 0, "debug"))
    [] c.op = "moreRows"            -> Why(c.n >= 0, "debug")
    [] c.op = "capacities"          -> Why(\A k \in 1..Len(c.vs) : c.vs[k] >= 0, "bounds") \cup Why(c.n >= 0, "debug")
    \* sets of rows, patterns and matrices
    [] c.op = "join"                -> RowAnd(s, c, Why(Fits(s, c, <<c.v>>), "bounds"))
    [] c.op = "joinMany"            -> RowAnd(s, c, Why(Rising(c.vs) /\ Fits(s, c, c.vs), "bounds"))
    [] c.op = "part"                -> RowAnd(s, c, {})
    [] c.op = "partMany"            -> RowAnd(s, c, Why(Rising(c.vs), "bounds"))
    [] c.op = "nonzero"             -> RowAnd(s, c, Columns(s, <<c.v>>) \cup Why(Fits(s, c, <<c.v>>), "bounds"))
    [] c.op = "nonzeros"            -> RowAnd(s, c, Columns(s, c.vs) \cup Why(Rising(c.vs) /\ Fits(s, c, c.vs), "bounds"))
    [] c.op = "zero"                -> RowAnd(s, c, Columns(s, <<c.v>>))
    [] c.op = "zeros"               -> RowAnd(s, c, Columns(s, c.vs) \cup Why(Rising(c.vs), "bounds"))
    [] c.op = "add"                 -> RowAnd(s, c, Why(Set(c.vs) \subseteq Set(Row(s, c.i)) /\ (c.how # 3 => Rising(c.vs)), "bounds"))
    [] c.op = "columns"             -> Why(c.n - 1 <= s.most, "always") \cup Why(c.m >= 0, "debug")
    [] c.op = "consistent"          -> Why(\A i \in 1..Len(c.lens) : Rising(Segment(c.lens, c.vs, i)), "bounds")

Reported(s, c) == Against(s, c) \cap checks # {}
(* A call that may be made at all in this build. *)
Defined(s, c) == Against(s, c) = {} \/ Reported(s, c)

(* Reported calls leave what the container holds as it is; where entries are added one by one, and where slots are reserved atomically, those before
   the offending one may have been done. What calls that are in order do is specified in the other modules. *)
Same(s, after) == shape' = [s EXCEPT !.caps = after.caps] /\ after.rows = s.rows /\ after.dims = s.dims
Done(s, c, after, reported) ==
  /\ Defined(s, c)
  /\ reported <=> Reported(s, c)
  /\ IF reported /\ c.op \notin {"appendAtomic", "consistent"} THEN Same(s, after) ELSE shape' = after
  /\ UNCHANGED checks
=============================================================================
