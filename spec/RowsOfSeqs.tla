----------------------------- MODULE RowsOfSeqs -----------------------------
(* Arrays of arrays: a sequence of sequences. *)
EXTENDS Rows
InRow(o, i) == Using({o}) /\ i \in 0..(NRows(o) - 1)
AppendRow(o, x) == NewRow(o, NRows(o), x, Len(x))
InsertRow(o, i, x) == NewRow(o, i, x, Len(x))
PushBack(o, i, v) == ChangeRow(o, i, Append(Row(o, i), v))
AppendTo(o, i, vals) == ChangeRow(o, i, Row(o, i) \o vals)
InsertInto(o, i, j, vals) == InRow(o, i) /\ j \in 0..Len(Row(o, i)) /\ ChangeRow(o, i, InsertRange(Row(o, i), j, vals))
EraseFrom(o, i, j, n) == InRow(o, i) /\ j + n <= Len(Row(o, i)) /\ ChangeRow(o, i, EraseRange(Row(o, i), j, n))
ResizeRow(o, i, n, v) == ChangeRow(o, i, Resized(Row(o, i), n, v))
WriteAt(o, i, j, v) == InRow(o, i) /\ j < Len(Row(o, i)) /\ ChangeRow(o, i, [Row(o, i) EXCEPT ![j + 1] = v])
(* Through a view: as by the owner, but only while it fits. *)
Within(o, i, n) == Len(Row(o, i)) + n <= Cap(o, i)
=============================================================================
