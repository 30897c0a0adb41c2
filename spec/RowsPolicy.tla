----------------------------- MODULE RowsPolicy -----------------------------
(* One concrete storage policy for the row containers, used when exploring the specifications: rows lie back to back,  *)
(* a row and the element storage double when they are too small, and a grown storage area is at an unused address.     *)
EXTENDS Rows, Json
VARIABLE path
Op(o) == path' = Append(path, o)
Starts(cs) == [i \in 1..Len(cs) |-> SumSeq(SubSeq(cs, 1, i - 1))]
Pool == 1..(Cardinality(Objs) + 1)
Unused == CHOOSE p \in Pool : \A q \in Objs : mem[q].addr # p
Larger(a, b) == IF a > b THEN a ELSE b
Blank == [vcap |-> 0, rcap |-> 0, addr |-> 0, starts |-> <<>>]
(* Object o uses rows of capacities cs in storage for at least v elements and r rows. *)
MemFor(o, cs, v, r) ==
  [vcap |-> IF v > mem[o].vcap THEN v ELSE mem[o].vcap, rcap |-> Larger(Larger(r, Len(cs)), mem[o].rcap),
   addr |-> IF v > mem[o].vcap THEN Unused ELSE mem[o].addr, starts |-> Starts(cs)]
Use(o, cs, v, r) == caps' = [caps EXCEPT ![o] = cs] /\ mem' = [mem EXCEPT ![o] = MemFor(o, cs, v, r)]
UseAs(o, cs) == Use(o, cs, SumSeq(cs), 0)
SameUse == UNCHANGED <<caps, mem>>
(* Row i (from 0) of object o needs room for n. *)
RowUse(o, i, n) == IF n <= Cap(o, i) THEN SameUse
                   ELSE LET cs == [caps[o] EXCEPT ![i + 1] = 2 * n] IN Use(o, cs, IF SumSeq(cs) > mem[o].vcap THEN 2 * SumSeq(cs) ELSE 0, 0)
NewRowUse(o, i, n) == LET cs == InsertRange(caps[o], i, <<2 * n>>) IN Use(o, cs, SumSeq(cs), 0)
MoveUse(o, p) == IF o = p THEN SameUse
                 ELSE caps' = [caps EXCEPT ![o] = caps[p], ![p] = <<>>] /\ mem' = [mem EXCEPT ![o] = mem[p], ![p] = Blank]
SwapUse(o, p) == caps' = [caps EXCEPT ![o] = caps[p], ![p] = caps[o]] /\ mem' = [mem EXCEPT ![o] = mem[p], ![p] = mem[o]]
FreshUse(o, cs) == caps' = [caps EXCEPT ![o] = cs]
                   /\ mem' = [mem EXCEPT ![o] = [vcap |-> SumSeq(cs), rcap |-> Len(cs), addr |-> IF SumSeq(cs) = 0 THEN 0 ELSE Unused, starts |-> Starts(cs)]]
PolicyInit == rows = [o \in Objs |-> <<>>] /\ caps = [o \in Objs |-> <<>>] /\ mem = [o \in Objs |-> Blank] /\ ok = [o \in Objs |-> TRUE] /\ path = <<>>
Lengths(cs) == [i \in 1..Len(cs) |-> Len(cs[i])]
Apart == \A o, p \in Objs : o # p /\ mem[o].addr # 0 => mem[o].addr # mem[p].addr
(* No operation on one object changes another one, except that moving and swapping are about two. *)
OthersUntouched == [][path' # path => LET a == path'[Len(path')] IN
  \A q \in Objs : q # a.o /\ <<rows[q], caps[q], mem[q]>>' # <<rows[q], caps[q], mem[q]>> => a.op \in {"moveAssign", "moveConstruct", "swap"} /\ q = a.p]_<<rvars, path>>
(* The operations on a single row leave the others alone. *)
RowsUntouched(ops) == [][path' # path => LET a == path'[Len(path')] IN
  a.op \in ops => /\ Len(rows'[a.o]) = Len(rows[a.o])
                  /\ \A i \in 1..Len(rows[a.o]) : i # a.i + 1 => rows'[a.o][i] = rows[a.o][i] /\ caps'[a.o][i] = caps[a.o][i]]_<<rvars, path>>
=============================================================================
