----------------------------- MODULE RowsOfSets -----------------------------
(* Arrays of sets: every row is a set, stored in ascending order. *)
EXTENDS Rows, FiniteSetsExt
Ordered(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
SetAt(o, i) == ToSet(Row(o, i))
InRow(o, i) == Using({o}) /\ i \in 0..(NRows(o) - 1)
InsertSet(o, i, n) == NewRow(o, i, <<>>, n)
AppendSet(o, n) == NewRow(o, NRows(o), <<>>, n)
(* Returns how many were new. *)
Added(o, i, S) == Cardinality(S \ SetAt(o, i))
Removed(o, i, S) == Cardinality(S \cap SetAt(o, i))
AddTo(o, i, S) == InRow(o, i) /\ ChangeRow(o, i, Ordered(SetAt(o, i) \cup S))
TakeFrom(o, i, S) == InRow(o, i) /\ ChangeRow(o, i, Ordered(SetAt(o, i) \ S))
ClearSet(o, i) == ChangeRow(o, i, <<>>)
(* Taking over an array of arrays: the distinct values of every row. *)
Distinct(lists) == [k \in 1..Len(lists) |-> Ordered(ToSet(lists[k]))]
Assimilate(o, lists) == Fresh(o, Distinct(lists))
SortedUnique(x) == \A k \in 1..(Len(x) - 1) : x[k] < x[k + 1]
AllSortedUnique == \A o \in Objs : \A i \in 1..Len(rows[o]) : SortedUnique(rows[o][i])
=============================================================================
