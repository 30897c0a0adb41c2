------------------------------ MODULE BoundsMC ------------------------------
EXTENDS Bounds, Json
CONSTANTS Wide                  \* how far outside the valid range the arguments go
VARIABLE path
Mem(n) == [k \in 1..n |-> 2 * k - 1]
(* kinds of containers, and their shapes *)
NDims == UNION {{<<a>> : a \in 0..2}, {<<a, b>> : a, b \in 0..2}, {<<2, 1, 3>>, <<1, 0, 2>>, <<2, 2, 2>>, <<1, 1, 1>>}, {<<1, 2, 1, 2>>, <<2, 1, 2, 1>>}}
RowShapes == {<<>>, <<<<0, 0>>>>, <<<<0, 1>>>>, <<<<2, 2>>>>, <<<<2, 3>>>>, <<<<1, 2>>, <<0, 0>>>>, <<<<2, 2>>, <<1, 3>>>>, <<<<0, 1>>, <<3, 3>>, <<1, 2>>>>}
Of(rs) == [rows |-> [k \in 1..Len(rs) |-> Mem(rs[k][1])], caps |-> [k \in 1..Len(rs) |-> rs[k][2]]]
NoRows == [rows |-> <<>>, caps |-> <<>>]
Build(kind, dims, x, cols) == [op |-> "shape", kind |-> kind, dims |-> dims, rows |-> x.rows, caps |-> x.caps, cols |-> cols]
Shapes ==
  {Build("nd", d, NoRows, 0) : d \in NDims}
  \cup {Build(k, <<Len(Mem(n))>>, Of(<<<<n, n>>>>), 0) : k \in {"seq", "set"}, n \in 0..3}
  \cup {Build("buffer", <<>>, Of(<<<<n, n>>>>), 0) : n \in 0..3}
  \cup {Build(k, <<>>, Of(x), 0) : k \in {"rows", "sets"}, x \in RowShapes}
  \cup {Build(k, <<>>, Of(x), c) : k \in {"pattern", "matrix"}, x \in RowShapes, c \in {6, 8}}
As(s) == [dims |-> s.dims, rows |-> s.rows, caps |-> s.caps, cols |-> s.cols, most |-> 127]
Near(n) == (-Wide)..(n + Wide)
Lists == {<<>>, <<1>>, <<0, 2>>, <<1, 3>>, <<3, 1>>, <<2, 2>>, <<0, 1, 2>>, <<1, 0, 2>>, <<0, 2, 2>>, <<1, 3, 5>>, <<-1, 1>>, <<1, 6>>, <<0, 2, 4, 6>>}
AnyRow(s) == Near(Len(s.rows))
At(s, i) == IF In(i, Len(s.rows)) THEN Len(s.rows[i + 1]) ELSE 0
Vias(k) == CASE k = "rows" -> {"owner", "view", "viewSizes", "viewConst"} [] k \in {"sets", "pattern"} -> {"owner", "view", "viewConst"} [] OTHER -> {"owner", "view", "viewSizes", "viewConst"}
Changing(k) == IF k = "matrix" THEN {"owner", "view"} ELSE {"owner", "view"}
Tuples(d) == IF Len(d) = 1 THEN {<<a>> : a \in Near(d[1])}
             ELSE IF Len(d) = 2 THEN {<<a, b>> : a \in Near(d[1]), b \in Near(d[2])}
             ELSE LET ok == [k \in 1..Len(d) |-> 0] IN {[ok EXCEPT ![k] = a] : k \in 1..Len(d), a \in Near(d[1] + 1)} \cup {[k \in 1..Len(d) |-> d[k] - 1], [k \in 1..Len(d) |-> d[k]], [k \in 1..Len(d) |-> -1]}
Calls(s) ==
  CASE s.kind = "nd" ->
         {[op |-> o, idx |-> t, how |-> h] : o \in {"at", "linear"}, t \in Tuples(s.dims), h \in 0..1}
         \cup {[op |-> o, d |-> d, depth |-> 0, how |-> 0] : o \in {"extent", "step"}, d \in Near(Len(s.dims))}
         \cup {[op |-> o, d |-> d, depth |-> h, how |-> 1] : o \in {"extent", "step"}, d \in Near(Len(s.dims)), h \in {x \in 0..(Len(s.dims) - 1) : \A k \in 1..x : s.dims[k] > 0}}
         \cup {[op |-> "resizeIndex", d |-> d] : d \in Near(Len(s.dims))}
         \cup {[op |-> o, dims |-> t, how |-> h] : o \in {"reshape"}, t \in Tuples(s.dims), h \in 0..2}
         \cup {[op |-> "manyDims", dims |-> t] : t \in {<<>>, <<1>>, <<1, 2>>, <<1, 2, 1>>, <<-1>>, <<1, -1>>}}
         \cup {[op |-> "length", n |-> n, how |-> h] : n \in -2..2, h \in 0..1}
    [] s.kind = "seq" ->
         {[op |-> o, p |-> p, n |-> n, how |-> h] : o \in {"insert"}, p \in Near(s.dims[1]), n \in 0..2, h \in 0..1}
         \cup {[op |-> "erase", p |-> p] : p \in Near(s.dims[1])} \cup {[op |-> "pop"]} \cup {[op |-> "length", n |-> n, how |-> h] : n \in -2..2, h \in 0..1}
    [] s.kind = "set" ->
         {[op |-> "element", p |-> p, how |-> h] : p \in Near(s.dims[1]), h \in 0..5} \cup {[op |-> o, vs |-> v] : o \in {"include", "exclude"}, v \in Lists}
    [] s.kind = "buffer" ->
         LET c == s.caps[1] IN {[op |-> "bufferCheck", n |-> n] : n \in Near(c)}
           \cup {[op |-> "bufferInsert", n |-> n, p |-> p, how |-> h] : n \in Near(c), p \in Near(c), h \in 0..2}
           \cup {[op |-> "bufferErase", n |-> n, p |-> p] : n \in Near(c), p \in Near(c)}
    [] s.kind = "rows" ->
         {[op |-> "row", i |-> i, how |-> h, via |-> v] : i \in AnyRow(s), h \in 0..2, v \in Vias("rows")}
         \cup {[op |-> "row", i |-> i, how |-> h, via |-> "owner"] : i \in AnyRow(s), h \in 3..4}
         \cup UNION {{[op |-> "value", i |-> i, j |-> j, how |-> h, via |-> v] : j \in Near(At(s, i)), h \in 0..1, v \in Vias("rows")} : i \in AnyRow(s)}
         \cup {[op |-> "append", i |-> i, n |-> 1, how |-> 0, via |-> v] : i \in AnyRow(s), v \in Changing("rows")}
         \cup {[op |-> "appendAtomic", i |-> i, n |-> 1, how |-> 1, via |-> "view"] : i \in AnyRow(s)}
         \cup {[op |-> "append", i |-> i, n |-> n, how |-> 2, via |-> v] : i \in AnyRow(s), v \in Changing("rows"), n \in 0..2}
         \cup UNION {{[op |-> "insertInto", i |-> i, j |-> j, n |-> n, how |-> n, via |-> v] : j \in Near(At(s, i)), n \in 1..2, v \in Changing("rows")} : i \in AnyRow(s)}
         \cup UNION {{[op |-> "eraseFrom", i |-> i, j |-> j, n |-> n, via |-> v] : j \in Near(At(s, i)), n \in -1..3, v \in Changing("rows")} : i \in AnyRow(s)}
         \cup {[op |-> "newRow", i |-> i, n |-> n] : i \in AnyRow(s), n \in 0..2}
         \cup {[op |-> "rowLength", i |-> i, n |-> n, how |-> h] : i \in AnyRow(s), n \in -1..2, h \in 0..1}
         \cup {[op |-> "moreRows", n |-> n] : n \in -1..2}
         \cup {[op |-> "capacities", n |-> Len(v), vs |-> v] : v \in Lists}
    [] s.kind = "sets" ->
         {[op |-> "row", i |-> i, how |-> h, via |-> v] : i \in AnyRow(s), h \in 0..2, v \in Vias("sets")}
         \cup {[op |-> "row", i |-> i, how |-> h, via |-> "owner"] : i \in AnyRow(s), h \in 3..5}
         \cup UNION {{[op |-> "value", i |-> i, j |-> j, how |-> h, via |-> v] : j \in Near(At(s, i)), h \in 0..1, v \in Vias("sets")} : i \in AnyRow(s)}
         \cup {[op |-> o, i |-> i, v |-> v, via |-> w] : o \in {"join"}, i \in AnyRow(s), v \in 0..3, w \in Changing("sets")}
         \cup {[op |-> "part", i |-> i, v |-> v, how |-> h, via |-> w] : i \in AnyRow(s), v \in 0..3, h \in 0..1, w \in Changing("sets")}
         \cup {[op |-> o, i |-> i, vs |-> v, via |-> w] : o \in {"joinMany", "partMany"}, i \in AnyRow(s), v \in Lists, w \in Changing("sets")}
         \cup {[op |-> "newRow", i |-> i, n |-> n] : i \in AnyRow(s), n \in -1..2}
         \cup {[op |-> "consistent", lens |-> r[1], vs |-> r[2]] : r \in {<<<<>>, <<>>>>, <<<<2, 0>>, <<1, 2>>>>, <<<<0, 2>>, <<2, 1>>>>, <<<<2>>, <<3, 3>>>>, <<<<1, 3>>, <<1, 2, 4, 4>>>>, <<<<2, 2>>, <<3, 4, 1, 2>>>>}}
    [] OTHER ->
         {[op |-> "row", i |-> i, how |-> h, via |-> v] : i \in AnyRow(s), h \in 0..(IF s.kind = "matrix" THEN 5 ELSE 4), v \in Vias(s.kind)}
         \cup {[op |-> "row", i |-> i, how |-> h, via |-> "owner"] : i \in AnyRow(s), h \in {6}}
         \cup {[op |-> o, i |-> i, v |-> v, via |-> w] : o \in {"nonzero", "zero"}, i \in AnyRow(s), v \in {-1, 0, 1, 2, s.cols - 1, s.cols, s.cols + 1}, w \in Changing(s.kind)}
         \cup {[op |-> o, i |-> i, vs |-> v, via |-> w] : o \in {"nonzeros", "zeros"}, i \in AnyRow(s), v \in Lists, w \in Changing(s.kind)}
         \cup (IF s.kind = "matrix" THEN {[op |-> "add", i |-> i, vs |-> v, how |-> h, via |-> w] : i \in AnyRow(s), v \in Lists, h \in 0..3, w \in {"owner", "view", "viewSizes"}} ELSE {})
         \cup {[op |-> "columns", n |-> n, m |-> 2, how |-> h] : n \in {0, 1, 127, 128, 129, 130, 300}, h \in 0..1}

Init == shape = <<>> /\ checks \in SUBSET {"bounds", "debug"} /\ path = <<>>
Start == path = <<>> /\ shape' \in Shapes /\ path' = <<>> /\ checks' = checks \cup {"always"}
Ready == shape # <<>> /\ path = <<>>
Next == \/ shape = <<>> /\ Start
        \/ Ready /\ \E c \in Calls(shape) : Defined(As(shape), c) /\ path' = <<shape, [c |-> c]>> /\ UNCHANGED <<shape, checks>>
Spec == Init /\ [][Next]_<<vars, path>>
(* only those of the build with all checks, and of the one with none *)
Lens(x) == [k \in 1..Len(x) |-> Len(x[k])]
Flat(s) == [op |-> "shape", kind |-> s.kind, dims |-> s.dims, lens |-> Lens(s.rows), caps |-> s.caps, cols |-> s.cols, checks |-> (IF "bounds" \in checks THEN 1 ELSE 0) + (IF "debug" \in checks THEN 2 ELSE 0)]
Emit == path' = <<>> \/ PrintT("@" \o ToJson(<<Flat(path'[1]), path'[2].c>>))
(* Checking more only reports more, and with every check on every call is reported that is not in order. *)
Strict == path # <<>> => (Against(As(path[1]), path[2].c) # {} <=> (LET all == {"always", "bounds", "debug"} IN Against(As(path[1]), path[2].c) \cap all # {}))
=============================================================================
