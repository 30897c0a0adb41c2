---------------------------- MODULE RowsOfSeqsMC ----------------------------
EXTENDS RowsOfSeqs, RowsPolicy
CONSTANTS Vals, MaxRows, MaxLen, MaxDepth
Lists == {<<>>, <<1>>, <<2, 1>>}
CapLists == {<<>>, <<0>>, <<2, 1>>}
Init == PolicyInit
RowIdx(o) == 0..(NRows(o) - 1)
InRows(o) ==
  \E i \in RowIdx(o) :
    \/ \E v \in Vals : RowUse(o, i, Len(Row(o, i)) + 1) /\ PushBack(o, i, v) /\ Op([op |-> "emplaceBack", o |-> o, i |-> i, v |-> v, alt |-> Len(path) + v + i])
    \/ \E vals \in Lists : RowUse(o, i, Len(Row(o, i)) + Len(vals)) /\ AppendTo(o, i, vals) /\ Op([op |-> "appendTo", o |-> o, i |-> i, vals |-> vals, alt |-> Len(path) + i])
    \/ \E j \in 0..Len(Row(o, i)), vals \in Lists : RowUse(o, i, Len(Row(o, i)) + Len(vals)) /\ InsertInto(o, i, j, vals)
          /\ Op(IF Len(vals) = 1 THEN [op |-> "emplace", o |-> o, i |-> i, j |-> j, v |-> vals[1], alt |-> Len(path) + j]
                                 ELSE [op |-> "insertInto", o |-> o, i |-> i, j |-> j, vals |-> vals, alt |-> Len(path) + j])
    \/ \E j \in 0..(Len(Row(o, i)) - 1) : \E n \in 0..(Len(Row(o, i)) - j) : SameUse /\ EraseFrom(o, i, j, n) /\ Op([op |-> "eraseFrom", o |-> o, i |-> i, j |-> j, n |-> n])
    \/ \E n \in 0..MaxLen : RowUse(o, i, n) /\ ResizeRow(o, i, n, 2) /\ Op([op |-> "resizeArray", o |-> o, i |-> i, n |-> n, v |-> 2])
    \/ SameUse /\ ResizeRow(o, i, 0, 0) /\ Op([op |-> "clearArray", o |-> o, i |-> i])
    \/ \E n \in 0..MaxLen + 1 : UseAs(o, [caps[o] EXCEPT ![i + 1] = n]) /\ SetCap(o, i, n) /\ Op([op |-> "setCapacity", o |-> o, i |-> i, n |-> n])
    \/ UseAs(o, EraseRange(caps[o], i, 1)) /\ EraseRow(o, i) /\ Op([op |-> "eraseArray", o |-> o, i |-> i])
WholeObject(o) ==
  \/ \E n \in {0, 2} : NewRowUse(o, NRows(o), n) /\ AppendRow(o, Fill(n, 0)) /\ Op([op |-> "appendArray", o |-> o, n |-> n])
  \/ \E x \in Lists : NewRowUse(o, NRows(o), Len(x)) /\ AppendRow(o, x) /\ Op([op |-> "appendArrayVals", o |-> o, vals |-> x, alt |-> Len(x)])
  \/ \E i \in 0..NRows(o), x \in Lists : NewRowUse(o, i, Len(x)) /\ InsertRow(o, i, x) /\ Op([op |-> "insertArray", o |-> o, i |-> i, vals |-> x, alt |-> i])
  \/ \E n \in 0..MaxRows, c \in {0, 2} : UseAs(o, Resized(caps[o], n, c)) /\ ResizeRows(o, n, c) /\ Op([op |-> "resize", o |-> o, n |-> n, c |-> c])
  \/ \E cs \in CapLists : UseAs(o, cs) /\ Rebuild(o, cs) /\ Op([op |-> "resizeFromCapacities", o |-> o, vals |-> cs])
  \/ ok[o] /\ UseAs(o, Lengths(rows[o])) /\ Compress(o) /\ Op([op |-> "compress", o |-> o])
  \/ Use(o, caps[o], 5, 0) /\ ReserveElements(o, 5) /\ Op([op |-> "reserveValues", o |-> o, n |-> 5])
  \/ Use(o, caps[o], 0, 3) /\ ReserveRows(o, 3) /\ Op([op |-> "reserve", o |-> o, n |-> 3])
  \/ \E n \in {0, 2}, c \in {0, 1} : FreshUse(o, Fill(n, c)) /\ FreshCaps(o, Fill(n, <<>>), Fill(n, c)) /\ Op([op |-> "renew", o |-> o, n |-> n, c |-> c])
TwoObjects(o, p) ==
  \/ /\ ok[p] /\ IF o = p THEN SameUse ELSE UseAs(o, caps[p])
     /\ CopyOf(o, p) /\ Op([op |-> "copyAssign", o |-> o, p |-> p])
  \/ ok[p] /\ FreshUse(o, caps[p]) /\ CopyOf(o, p) /\ Op([op |-> "copyConstruct", o |-> o, p |-> p])
  \/ o # p /\ MoveUse(o, p) /\ MoveOf(o, p) /\ \E name \in {"moveAssign", "moveConstruct"} : Op([op |-> name, o |-> o, p |-> p])
  \/ o < p /\ SwapUse(o, p) /\ Swap(o, p) /\ Op([op |-> "swap", o |-> o, p |-> p])
Next == \E o \in Objs : (ok[o] /\ InRows(o)) \/ WholeObject(o) \/ \E p \in Objs : TwoObjects(o, p)
Spec == Init /\ [][Next]_<<rvars, path>>
Small(rs) == \A o \in Objs : Len(rs[o]) <= MaxRows /\ \A i \in 1..Len(rs[o]) : Len(rs[o][i]) <= MaxLen
Bound == Small(rows) /\ Len(path) < MaxDepth
View == <<rows, caps, ok>>
Emit == Small(rows') /\ PrintT("@" \o ToJson(path'))
RowOps == RowsUntouched({"emplaceBack", "appendTo", "emplace", "insertInto", "eraseFrom", "resizeArray", "clearArray", "setCapacity"})
Laws == \A o \in Objs : \A i \in 1..Len(rows[o]) : \A j \in 0..Len(rows[o][i]) :
          EraseRange(InsertRange(rows[o][i], j, <<7, 8>>), j, 2) = rows[o][i]
=============================================================================
