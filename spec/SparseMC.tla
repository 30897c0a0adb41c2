------------------------------ MODULE SparseMC ------------------------------
EXTENDS Sparse, RowsPolicy
CONSTANTS Keys, MaxRows, MaxDepth
(* Every object starts as one of 2 rows and 3 columns with room for one entry in each row. *)
Begin(o) == [op |-> "renew", o |-> o, n |-> 2, m |-> 3, c |-> 1]
Init == /\ rows = [o \in Objs |-> <<<<>>, <<>>>>] /\ caps = [o \in Objs |-> <<1, 1>>] /\ ok = [o \in Objs |-> TRUE]
        /\ mem = [o \in Objs |-> [vcap |-> 2, rcap |-> 2, addr |-> o, starts |-> <<0, 1>>]] /\ ncols = [o \in Objs |-> 3]
        /\ path = [k \in 1..Cardinality(Objs) |-> Begin(SetToSortSeq(Objs, LAMBDA a, b : a < b)[k])]
RowIdx(o) == 0..(NRows(o) - 1)
Alt(k) == Len(path) + k
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
InsUse(o, i, n) == IF n <= Cap(o, i) THEN SameUse ELSE LET cs == [caps[o] EXCEPT ![i + 1] = Clamp(o, 2 * n)] IN UseAs(o, cs)
Vals(S) == [k \in 1..Cardinality(S) |-> 10 * k]
InRows(o) ==
  \E i \in RowIdx(o) :
    \/ \E S \in (SUBSET Keys) :
         LET cs == Sorted(S)
             vs == IF o \in Mats THEN Vals(S) ELSE Fill(Len(cs), 0) IN
         \/ InsUse(o, i, Len(Row(o, i)) + Cardinality(NewCols(o, i, cs))) /\ InsertNZ(o, i, cs, vs)
            /\ Op(IF Len(cs) = 1 THEN [op |-> "insertNZ", o |-> o, i |-> i, c |-> cs[1], v |-> vs[1], alt |-> Alt(i)]
                  ELSE [op |-> "insertNZs", o |-> o, i |-> i, vals |-> cs, valse |-> vs, alt |-> Alt(Len(cs))])
         \/ SameUse /\ RemoveNZ(o, i, cs)
            /\ Op(IF Len(cs) = 1 THEN [op |-> "removeNZ", o |-> o, i |-> i, c |-> cs[1], alt |-> Alt(i)]
                  ELSE [op |-> "removeNZs", o |-> o, i |-> i, vals |-> cs, alt |-> Alt(Len(cs))])
         \/ S # {} /\ SameUse /\ AddToRow(o, i, cs, Vals(S)) /\ Op([op |-> "addToRow", o |-> o, i |-> i, vals |-> cs, valse |-> Vals(S), alt |-> Alt(i)])
    \/ \E n \in {0, 2, 4} : UseAs(o, [caps[o] EXCEPT ![i + 1] = Clamp(o, n)]) /\ SetRowCap(o, i, n) /\ Op([op |-> "setCapacity", o |-> o, i |-> i, n |-> n])
    \/ \E n \in {2, 4} : UseAs(o, [caps[o] EXCEPT ![i + 1] = Larger(@, Clamp(o, n))]) /\ ReserveInRow(o, i, n) /\ Op([op |-> "reserveRow", o |-> o, i |-> i, n |-> n])
WholeObject(o) ==
  \/ \E n \in 0..MaxRows, c \in {0, 2} : UseAs(o, Resized(caps[o], n, c)) /\ ResizeTo(o, n, 3, c) /\ Op([op |-> "resize", o |-> o, n |-> n, m |-> 3, c |-> c])
  \/ \E cs \in {<<>>, <<2, 1>>} : UseAs(o, cs) /\ RebuildTo(o, 3, cs) /\ Op([op |-> "resizeFromCapacities", o |-> o, m |-> 3, vals |-> cs])
  \/ ok[o] /\ UseAs(o, Lengths(rows[o])) /\ CompressAll(o) /\ Op([op |-> "compress", o |-> o])
  \/ Use(o, caps[o], 5, 0) /\ ReserveTotal(o, 5) /\ Op([op |-> "reserveTotal", o |-> o, n |-> 5])
  \/ o \in Mats /\ SameUse /\ SetValues(o, 7) /\ Op([op |-> "setValues", o |-> o, v |-> 7])
  \/ o \in Mats /\ SameUse /\ SetValues(o, 0) /\ Op([op |-> "zero", o |-> o])
  \/ o \in Pats /\ ok[o] /\ \E n \in {0, 2} : LET cs == Append(caps[o], Clamp(o, n)) IN UseAs(o, cs) /\ AppendRow(o, n) /\ Op([op |-> "appendRow", o |-> o, n |-> n])
  \/ o \in Pats /\ ok[o] /\ Use(o, caps[o], 0, 3) /\ ReserveMoreRows(o, 3) /\ Op([op |-> "reserveRows", o |-> o, n |-> 3])
TwoObjects(o, p) ==
  \/ /\ ok[p] /\ SameKind(o, p) /\ IF o = p THEN SameUse ELSE UseAs(o, caps[p])
     /\ Copied(o, p) /\ Op([op |-> "copyAssign", o |-> o, p |-> p])
  \/ ok[p] /\ SameKind(o, p) /\ FreshUse(o, caps[p]) /\ Copied(o, p) /\ Op([op |-> "copyConstruct", o |-> o, p |-> p])
  \/ o # p /\ SameKind(o, p) /\ MoveUse(o, p) /\ Moved(o, p) /\ \E name \in {"moveAssign", "moveConstruct"} : Op([op |-> name, o |-> o, p |-> p])
  \/ o < p /\ SameKind(o, p) /\ SwapUse(o, p) /\ Swapped(o, p) /\ Op([op |-> "swap", o |-> o, p |-> p])
  \/ o \in Mats /\ p \in Pats /\ ok[o] /\ ok[p] /\ MoveUse(o, p) /\ Assimilate(o, p) /\ Op([op |-> "assimilate", o |-> o, p |-> p])
Next == \E o \in Objs : (ok[o] /\ InRows(o)) \/ WholeObject(o) \/ \E p \in Objs : TwoObjects(o, p)
Spec == Init /\ [][Next]_<<svars, path>>
Small(rs) == \A o \in Objs : Len(rs[o]) <= MaxRows
Bound == Small(rows) /\ Len(path) < MaxDepth + Cardinality(Objs)
View == <<rows, caps, ok>>
Emit == Small(rows') /\ PrintT("@" \o ToJson(path'))
RowOps == RowsUntouched({"insertNZ", "insertNZs", "removeNZ", "removeNZs", "addToRow", "setCapacity", "reserveRow"})
(* Adding hits the named columns only, and does not change which columns there are. *)
AddsHit == [][path' # path => LET a == path'[Len(path')] IN
  a.op = "addToRow" => LET r == rows[a.o][a.i + 1]  q == rows'[a.o][a.i + 1] IN
     Cols(q) = Cols(r) /\ \A k \in 1..Len(r) : IF Col(r[k]) \in ToSet(a.vals) THEN Entry(q[k]) > Entry(r[k]) ELSE q[k] = r[k]]_<<svars, path>>
(* Inserting and removing never change the entry of a column that stays. *)
EntriesFollow == [][path' # path => LET a == path'[Len(path')] IN
  a.op \in {"insertNZ", "insertNZs", "removeNZ", "removeNZs"} =>
     LET r == rows[a.o][a.i + 1]  q == rows'[a.o][a.i + 1] IN \A c \in ColSet(r) \cap ColSet(q) : EntryAt(r, c) = EntryAt(q, c)]_<<svars, path>>
OthersSame == [][path' # path => LET a == path'[Len(path')] IN
  \A q \in Objs : q # a.o /\ <<rows[q], caps[q], mem[q], ncols[q]>>' # <<rows[q], caps[q], mem[q], ncols[q]>> => a.op \in {"moveAssign", "moveConstruct", "swap", "assimilate"} /\ q = a.p]_<<svars, path>>
=============================================================================
