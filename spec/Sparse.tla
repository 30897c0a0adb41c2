------------------------------- MODULE Sparse -------------------------------
(* Sparsity patterns and compressed-row matrices: a row is a list of <<column, entry>> pairs in ascending order of     *)
(* columns; the rows of a pattern carry the entry 0. Every column lies in 0..ncols-1.                                  *)
EXTENDS Rows, FiniteSetsExt
CONSTANTS Mats                  \* the objects that are matrices; the others are patterns
VARIABLE ncols                  \* object -> number of columns
svars == <<rvars, ncols>>
Pats == Objs \ Mats
SameKind(o, p) == (o \in Mats) <=> (p \in Mats)
Col(x) == x[1]
Entry(x) == x[2]
Cols(r) == [k \in 1..Len(r) |-> Col(r[k])]
Entries(r) == [k \in 1..Len(r) |-> Entry(r[k])]
ColSet(r) == {Col(r[k]) : k \in 1..Len(r)}
EntryAt(r, c) == Entry(r[CHOOSE k \in 1..Len(r) : Col(r[k]) = c])
(* The row with columns S in order and the entries f gives them. *)
RowOf(S, f(_)) == LET cs == SetToSortSeq(S, LAMBDA a, b : a < b) IN [k \in 1..Len(cs) |-> <<cs[k], f(cs[k])>>]
Place(cs, c) == CHOOSE k \in 1..Len(cs) : cs[k] = c
Clamp(o, n) == IF n > ncols[o] THEN ncols[o] ELSE n
InRow(o, i) == Using({o}) /\ i \in 0..(NRows(o) - 1)
InCols(o, S) == \A c \in S : c \in 0..(ncols[o] - 1)
Valid == \A o \in Objs : ok[o] => \A i \in 1..Len(rows[o]) :
           LET r == rows[o][i] IN /\ \A k \in 1..(Len(r) - 1) : Col(r[k]) < Col(r[k + 1])
                                  /\ ColSet(r) \subseteq 0..(ncols[o] - 1)
                                  /\ o \in Pats => \A k \in 1..Len(r) : Entry(r[k]) = 0

(* Columns cs (distinct) with entries vs: a column that is there keeps its entry. Returns how many were new. *)
NewCols(o, i, cs) == ToSet(cs) \ ColSet(Row(o, i))
InsertNZ(o, i, cs, vs) ==
  /\ InRow(o, i) /\ InCols(o, ToSet(cs)) /\ UNCHANGED ncols
  /\ LET r == Row(o, i) IN
     ChangeRow(o, i, RowOf(ColSet(r) \cup ToSet(cs), LAMBDA c : IF c \in ColSet(r) THEN EntryAt(r, c) ELSE vs[Place(cs, c)]))
OldCols(o, i, cs) == ToSet(cs) \cap ColSet(Row(o, i))
RemoveNZ(o, i, cs) ==
  /\ InRow(o, i) /\ InCols(o, ToSet(cs)) /\ UNCHANGED ncols
  /\ LET r == Row(o, i) IN ChangeRow(o, i, RowOf(ColSet(r) \ ToSet(cs), LAMBDA c : EntryAt(r, c)))
(* cs[k] gets vs[k] more, for every k; all of them must be there. Nothing else changes. *)
SumFor(cs, vs, c) == FoldSeq(LAMBDA k, n : n + (IF cs[k] = c THEN vs[k] ELSE 0), 0, [k \in 1..Len(cs) |-> k])
AddToRow(o, i, cs, vs) ==
  /\ InRow(o, i) /\ o \in Mats /\ ToSet(cs) \subseteq ColSet(Row(o, i)) /\ UNCHANGED ncols
  /\ LET r == Row(o, i) IN ChangeRow(o, i, [k \in 1..Len(r) |-> <<Col(r[k]), Entry(r[k]) + SumFor(cs, vs, Col(r[k]))>>])
WriteEntry(o, i, k, v) ==
  /\ InRow(o, i) /\ o \in Mats /\ k \in 0..(Len(Row(o, i)) - 1) /\ UNCHANGED ncols
  /\ ChangeRow(o, i, [Row(o, i) EXCEPT ![k + 1] = <<Col(@), v>>])
AllEntries(rs, v) == [i \in 1..Len(rs) |-> [k \in 1..Len(rs[i]) |-> <<Col(rs[i][k]), v>>]]
SetValues(o, v) == Using({o}) /\ o \in Mats /\ UNCHANGED <<ok, ncols>> /\ Become(o, AllEntries(rows[o], v)) /\ SameStorage(o)

NewCount(o, m) == ncols' = [ncols EXCEPT ![o] = m]
ResizeTo(o, n, m, c) == NewCount(o, m) /\ ResizeRows(o, n, c)
RebuildTo(o, m, cs) == NewCount(o, m) /\ Rebuild(o, cs)
RenewTo(o, n, m, c) == NewCount(o, m) /\ FreshCaps(o, Fill(n, <<>>), Fill(n, c))
AppendRow(o, n) == UNCHANGED ncols /\ NewRow(o, NRows(o), <<>>, Clamp(o, n))
SetRowCap(o, i, n) == UNCHANGED ncols /\ SetCap(o, i, Clamp(o, n))
ReserveInRow(o, i, n) == UNCHANGED ncols /\ ReserveRow(o, i, Clamp(o, n))
ReserveTotal(o, n) == UNCHANGED ncols /\ ReserveElements(o, n)
ReserveMoreRows(o, n) == UNCHANGED ncols /\ ReserveRows(o, n)
CompressAll(o) == UNCHANGED ncols /\ Compress(o)
Copied(o, p) == SameKind(o, p) /\ NewCount(o, ncols[p]) /\ CopyOf(o, p)
Moved(o, p) == SameKind(o, p) /\ NewCount(o, ncols[p]) /\ MoveOf(o, p)
MovedInto(o, p) == SameKind(o, p) /\ NewCount(o, ncols[p]) /\ MoveConstructOf(o, p)
Swapped(o, p) == SameKind(o, p) /\ ncols' = [ncols EXCEPT ![o] = ncols[p], ![p] = ncols[o]] /\ Swap(o, p)
(* A matrix takes over a pattern; its entries are zero and the pattern is moved from. *)
Assimilate(o, p) ==
  /\ o \in Mats /\ p \in Pats /\ Using({o, p})
  /\ rows' = [rows EXCEPT ![o] = AllEntries(rows[p], 0), ![p] = <<>>] /\ ok' = [ok EXCEPT ![p] = FALSE]
  /\ NewCount(o, ncols[p])
  /\ Rule(caps'[o] = caps[p] /\ mem'[o].starts = mem[p].starts) /\ Others({o, p})
LookAt(o) == UNCHANGED ncols /\ Look(o)
(* empty(), empty(row), empty(row, col), numNonZeros(), numNonZeros(row), numRows(), numColumns() *)
Total(o) == SumSeq([k \in 1..NRows(o) |-> Len(rows[o][k])])
Answers(o, i, c) == <<Total(o) = 0, Len(Row(o, i)) = 0, c \notin ColSet(Row(o, i)), Total(o), Len(Row(o, i)), NRows(o), ncols[o]>>
=============================================================================
