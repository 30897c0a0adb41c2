--------------------------- MODULE RowsOfSeqsTrace --------------------------
EXTENDS RowsOfSeqs, RowsTraceIO
TraceInit == RowsInit
Room(e) == (Checks("capacity") /\  Has(e, "view")) => Within(e.o, e.i, IF Has(e, "vals") THEN Len(e.vals) ELSE 1)
TraceNext ==
  /\ More /\ Advance
  /\ LET e == Event IN
     \/ e.op = "gone" /\ Gone(e)
     \/ /\ e.op # "gone" /\ Storage(e)
        /\ \/ e.op = "begin" /\ AllEmpty
           \/ e.op = "appendArray" /\ AppendRow(e.o, Fill(e.n, 0))
           \/ e.op = "appendArrayVals" /\ AppendRow(e.o, e.vals)
           \/ e.op = "insertArray" /\ InsertRow(e.o, e.i, e.vals)
           \/ e.op = "eraseArray" /\ EraseRow(e.o, e.i)
           \/ e.op = "emplaceBack" /\ PushBack(e.o, e.i, e.v) /\ Room(e)
           \/ e.op = "appendTo" /\ AppendTo(e.o, e.i, e.vals) /\ Room(e)
           \/ e.op = "emplace" /\ InsertInto(e.o, e.i, e.j, <<e.v>>) /\ Room(e)
           \/ e.op = "insertInto" /\ InsertInto(e.o, e.i, e.j, e.vals) /\ Room(e)
           \/ e.op = "eraseFrom" /\ EraseFrom(e.o, e.i, e.j, e.n)
           \/ e.op = "resizeArray" /\ ResizeRow(e.o, e.i, e.n, e.v)
           \/ e.op = "clearArray" /\ ResizeRow(e.o, e.i, 0, 0)
           \/ e.op = "write" /\ WriteAt(e.o, e.i, e.j, e.v)
           \/ e.op = "setCapacity" /\ SetCap(e.o, e.i, e.n)
           \/ e.op = "reserve" /\ ReserveRows(e.o, e.n)
           \/ e.op = "reserveValues" /\ ReserveElements(e.o, e.n)
           \/ e.op = "resize" /\ ResizeRows(e.o, e.n, e.c)
           \/ e.op = "resizeFromCapacities" /\ Rebuild(e.o, e.vals)
           \/ e.op = "compress" /\ Compress(e.o)
           \/ e.op \in {"copyAssign", "copyConstruct"} /\ CopyOf(e.o, e.p)
           \/ e.op = "moveAssign" /\ MoveOf(e.o, e.p)
           \/ e.op = "moveConstruct" /\ MoveConstructOf(e.o, e.p)
           \/ e.op = "renew" /\ FreshCaps(e.o, [k \in 1..e.n |-> <<>>], Fill(e.n, e.c))
           \/ e.op = "swap" /\ Swap(e.o, e.p)
           \/ e.op = "view" /\ Look(e.o)
           \/ e.op = "assimilateSets" /\ FreshCaps(e.o, e.sets, e.setCaps)
        /\ RowsAfter(e)
TraceSpec == TraceInit /\ [][TraceNext]_<<rvars, l>>
=============================================================================
