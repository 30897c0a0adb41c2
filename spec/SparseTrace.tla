----------------------------- MODULE SparseTrace ----------------------------
EXTENDS Sparse, RowsTraceIO
TraceInit == RowsInit /\ ncols = [o \in Objs |-> 0]
Fits(e, n) == (Checks("capacity") /\ Has(e, "view")) => Len(Row(e.o, e.i)) + n <= Cap(e.o, e.i)
LiveEntries == FoldSet(LAMBDA o, n : n + Count(rows'[o]), 0, Mats)
NoCols == ncols' = [o \in Objs |-> 0]
EntriesSeen(e) ==
  /\ \A o \in Mats : ok'[o] => e.entries[o] = [i \in 1..Len(rows'[o]) |-> Entries(rows'[o][i])]
  /\ \A o \in Objs : ok'[o] => e.ncols[o] = ncols'[o] /\ e.nnz[o] = Count(rows'[o])
TraceNext ==
  /\ More /\ Advance
  /\ LET e == Event
         Ret(v) == Checks("contents") => e.ret = v
         cs == IF Has(e, "vals") THEN e.vals ELSE <<e.c>>
         vs == IF e.o \in Pats THEN Fill(Len(cs), 0) ELSE IF Has(e, "valse") THEN e.valse ELSE <<e.v>>
     IN
     \/ e.op = "gone" /\ Gone(e) /\ NoCols
     \/ /\ e.op # "gone" /\ Storage(e)
        /\ \/ e.op = "begin" /\ AllEmpty /\ NoCols
           \/ e.op = "insertNZ" /\ InsertNZ(e.o, e.i, cs, vs) /\ Ret(NewCols(e.o, e.i, cs) # {}) /\ Fits(e, Cardinality(NewCols(e.o, e.i, cs)))
           \/ e.op = "insertNZs" /\ InsertNZ(e.o, e.i, cs, vs) /\ Ret(Cardinality(NewCols(e.o, e.i, cs))) /\ Fits(e, Cardinality(NewCols(e.o, e.i, cs)))
           \/ e.op = "removeNZ" /\ RemoveNZ(e.o, e.i, cs) /\ Ret(OldCols(e.o, e.i, cs) # {})
           \/ e.op = "removeNZs" /\ RemoveNZ(e.o, e.i, cs) /\ Ret(Cardinality(OldCols(e.o, e.i, cs)))
           \/ e.op = "addToRow" /\ AddToRow(e.o, e.i, cs, vs)
           \/ e.op = "write" /\ WriteEntry(e.o, e.i, e.k, e.v)
           \/ e.op = "setValues" /\ SetValues(e.o, e.v)
           \/ e.op = "zero" /\ SetValues(e.o, 0)
           \/ e.op = "setCapacity" /\ SetRowCap(e.o, e.i, e.n)
           \/ e.op = "reserveRow" /\ ReserveInRow(e.o, e.i, e.n)
           \/ e.op = "reserveTotal" /\ ReserveTotal(e.o, e.n)
           \/ e.op = "reserveRows" /\ ReserveMoreRows(e.o, e.n)
           \/ e.op = "appendRow" /\ AppendRow(e.o, e.n)
           \/ e.op = "resize" /\ ResizeTo(e.o, e.n, e.m, e.c)
           \/ e.op = "resizeFromCapacities" /\ RebuildTo(e.o, e.m, e.vals)
           \/ e.op = "compress" /\ CompressAll(e.o)
           \/ e.op \in {"copyAssign", "copyConstruct"} /\ Copied(e.o, e.p)
           \/ e.op = "moveAssign" /\ Moved(e.o, e.p)
           \/ e.op = "moveConstruct" /\ MovedInto(e.o, e.p)
           \/ e.op = "renew" /\ RenewTo(e.o, e.n, e.m, e.c)
           \/ e.op = "swap" /\ Swapped(e.o, e.p)
           \/ e.op = "assimilate" /\ Assimilate(e.o, e.p)
           \/ e.op = "query" /\ InRow(e.o, e.i) /\ LookAt(e.o) /\ Ret(Answers(e.o, e.i, e.c))
           \/ e.op = "view" /\ LookAt(e.o)
        /\ RowsAfterAs(e, Cols, LiveEntries)
        /\ Checks("contents") => EntriesSeen(e)
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, l>>
=============================================================================
