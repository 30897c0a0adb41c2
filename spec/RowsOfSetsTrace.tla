--------------------------- MODULE RowsOfSetsTrace --------------------------
EXTENDS RowsOfSets, RowsTraceIO
TraceInit == RowsInit
Fits(e, n) == (Checks("capacity") /\ Has(e, "view")) => Len(Row(e.o, e.i)) + n <= Cap(e.o, e.i)
TraceNext ==
  /\ More /\ Advance
  /\ LET e == Event
         Ret(v) == Checks("contents") => e.ret = v
         S == IF Has(e, "vals") THEN ToSet(e.vals) ELSE {e.v}
     IN
     \/ e.op = "gone" /\ Gone(e)
     \/ /\ e.op # "gone" /\ Storage(e)
        /\ \/ e.op = "begin" /\ AllEmpty
           \/ e.op = "appendSet" /\ AppendSet(e.o, e.n)
           \/ e.op = "insertSet" /\ InsertSet(e.o, e.i, e.n)
           \/ e.op = "eraseSet" /\ EraseRow(e.o, e.i)
           \/ e.op = "insert" /\ AddTo(e.o, e.i, S) /\ Ret(Added(e.o, e.i, S) = 1) /\ Fits(e, Added(e.o, e.i, S))
           \/ e.op = "insertMany" /\ AddTo(e.o, e.i, S) /\ Ret(Added(e.o, e.i, S)) /\ Fits(e, Added(e.o, e.i, S))
           \/ e.op = "remove" /\ TakeFrom(e.o, e.i, S) /\ Ret(Removed(e.o, e.i, S) = 1)
           \/ e.op = "removeMany" /\ TakeFrom(e.o, e.i, S) /\ Ret(Removed(e.o, e.i, S))
           \/ e.op = "contains" /\ InRow(e.o, e.i) /\ Look(e.o) /\ Ret(e.v \in SetAt(e.o, e.i))
           \/ e.op = "clearSet" /\ ClearSet(e.o, e.i)
           \/ e.op = "setCapacity" /\ SetCap(e.o, e.i, e.n)
           \/ e.op = "reserveRow" /\ ReserveRow(e.o, e.i, e.n)
           \/ e.op = "reserve" /\ ReserveRows(e.o, e.n)
           \/ e.op = "reserveValues" /\ ReserveElements(e.o, e.n)
           \/ e.op = "resize" /\ ResizeRows(e.o, e.n, e.c)
           \/ e.op = "resizeFromCapacities" /\ Rebuild(e.o, e.vals)
           \/ e.op = "compress" /\ Compress(e.o)
           \/ e.op \in {"copyAssign", "copyConstruct"} /\ CopyOf(e.o, e.p)
           \/ e.op = "moveAssign" /\ MoveOf(e.o, e.p)
           \/ e.op = "moveConstruct" /\ MoveConstructOf(e.o, e.p)
           \/ e.op = "renew" /\ FreshCaps(e.o, [k \in 1..e.n |-> <<>>], Fill(e.n, e.c))
           \/ e.op = "swap" /\ Swap(e.o, e.p)
           \/ e.op = "view" /\ Look(e.o)
           \/ e.op = "assimilate" /\ Assimilate(e.o, e.lists)
        /\ RowsAfter(e)
TraceSpec == TraceInit /\ [][TraceNext]_<<rvars, l>>
=============================================================================
