---------------------------- MODULE RowsOfSetsMC ----------------------------
EXTENDS RowsOfSets, RowsPolicy
CONSTANTS Keys, MaxRows, MaxDepth
CapLists == {<<>>, <<0>>, <<2, 1>>}
Init == PolicyInit
RowIdx(o) == 0..(NRows(o) - 1)
Alt(k) == Len(path) + k
InRows(o) ==
  \E i \in RowIdx(o) :
    \/ \E S \in (SUBSET Keys) :
         \/ LET n == Len(Row(o, i)) + Added(o, i, S) IN RowUse(o, i, n) /\ AddTo(o, i, S)
            /\ Op(IF Cardinality(S) = 1 THEN [op |-> "insert", o |-> o, i |-> i, v |-> CHOOSE v \in S : TRUE, alt |-> Alt(i)]
                  ELSE [op |-> "insertMany", o |-> o, i |-> i, vals |-> Ordered(S), alt |-> Alt(Cardinality(S))])
         \/ SameUse /\ TakeFrom(o, i, S)
            /\ Op(IF Cardinality(S) = 1 THEN [op |-> "remove", o |-> o, i |-> i, v |-> CHOOSE v \in S : TRUE, alt |-> Alt(i)]
                  ELSE [op |-> "removeMany", o |-> o, i |-> i, vals |-> Ordered(S), alt |-> Alt(Cardinality(S))])
    \/ SameUse /\ ClearSet(o, i) /\ Op([op |-> "clearSet", o |-> o, i |-> i])
    \/ \E n \in 0..3 : UseAs(o, [caps[o] EXCEPT ![i + 1] = n]) /\ SetCap(o, i, n) /\ Op([op |-> "setCapacity", o |-> o, i |-> i, n |-> n])
    \/ \E n \in {2, 3} : UseAs(o, [caps[o] EXCEPT ![i + 1] = Larger(@, n)]) /\ ReserveRow(o, i, n) /\ Op([op |-> "reserveRow", o |-> o, i |-> i, n |-> n])
    \/ UseAs(o, EraseRange(caps[o], i, 1)) /\ EraseRow(o, i) /\ Op([op |-> "eraseSet", o |-> o, i |-> i])
NewSetUse(o, i, n) == LET cs == InsertRange(caps[o], i, <<n>>) IN Use(o, cs, SumSeq(cs), 0)
WholeObject(o) ==
  \/ \E n \in {0, 2} : NewSetUse(o, NRows(o), n) /\ AppendSet(o, n) /\ Op([op |-> "appendSet", o |-> o, n |-> n])
  \/ \E i \in 0..NRows(o), n \in {0, 2} : NewSetUse(o, i, n) /\ InsertSet(o, i, n) /\ Op([op |-> "insertSet", o |-> o, i |-> i, n |-> n])
  \/ \E n \in 0..MaxRows, c \in {0, 2} : UseAs(o, Resized(caps[o], n, c)) /\ ResizeRows(o, n, c) /\ Op([op |-> "resize", o |-> o, n |-> n, c |-> c])
  \/ \E cs \in CapLists : UseAs(o, cs) /\ Rebuild(o, cs) /\ Op([op |-> "resizeFromCapacities", o |-> o, vals |-> cs])
  \/ ok[o] /\ UseAs(o, Lengths(rows[o])) /\ Compress(o) /\ Op([op |-> "compress", o |-> o])
  \/ Use(o, caps[o], 5, 0) /\ ReserveElements(o, 5) /\ Op([op |-> "reserveValues", o |-> o, n |-> 5])
  \/ Use(o, caps[o], 0, 3) /\ ReserveRows(o, 3) /\ Op([op |-> "reserve", o |-> o, n |-> 3])
  \/ ok[o] /\ \E x \in {<<>>, <<<<1, 2>>>>, <<<<2, 1, 2>>, <<1, 1>>>>} :
       FreshUse(o, Lengths(Distinct(x))) /\ Assimilate(o, x)
       /\ Op([op |-> "assimilate", o |-> o, vals |-> FlattenSeq([k \in 1..Len(x) |-> <<-1>> \o x[k]]), desc |-> 3])
  \/ \E n \in {0, 2}, c \in {0, 1} : FreshUse(o, Fill(n, c)) /\ FreshCaps(o, Fill(n, <<>>), Fill(n, c)) /\ Op([op |-> "renew", o |-> o, n |-> n, c |-> c])
TwoObjects(o, p) ==
  \/ /\ ok[p] /\ IF o = p THEN SameUse ELSE UseAs(o, caps[p])
     /\ CopyOf(o, p) /\ Op([op |-> "copyAssign", o |-> o, p |-> p])
  \/ ok[p] /\ FreshUse(o, caps[p]) /\ CopyOf(o, p) /\ Op([op |-> "copyConstruct", o |-> o, p |-> p])
  \/ o # p /\ MoveUse(o, p) /\ MoveOf(o, p) /\ \E name \in {"moveAssign", "moveConstruct"} : Op([op |-> name, o |-> o, p |-> p])
  \/ o < p /\ SwapUse(o, p) /\ Swap(o, p) /\ Op([op |-> "swap", o |-> o, p |-> p])
Next == \E o \in Objs : (ok[o] /\ InRows(o)) \/ WholeObject(o) \/ \E p \in Objs : TwoObjects(o, p)
Spec == Init /\ [][Next]_<<rvars, path>>
Small(rs) == \A o \in Objs : Len(rs[o]) <= MaxRows
Bound == Small(rows) /\ Len(path) < MaxDepth
View == <<rows, caps, ok>>
Emit == Small(rows') /\ PrintT("@" \o ToJson(path'))
RowOps == RowsUntouched({"insert", "insertMany", "remove", "removeMany", "clearSet", "setCapacity", "reserveRow"})
=============================================================================
