------------------------------ MODULE GdbView ------------------------------
(* What the debugger shows of an object (scripts/gdb-printers.py, docs/sphinx/developmentAids.rst). An object has   *)
(* contents: a value for every index. The member gdb_view is a C array laid over the memory of the object, so what  *)
(* it shows at an index is the value C finds there: the one whose place in memory is the index's rank in the order  *)
(* in which the last index runs fastest.                                                                             *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Product(_)
Product(d) == IF d = <<>> THEN 1 ELSE Head(d) * Product(Tail(d))

RECURSIVE Indices(_)
Indices(d) == IF d = <<>> THEN {<<>>} ELSE {<<i>> \o r : i \in 0 .. Head(d) - 1, r \in Indices(Tail(d))}

RECURSIVE Rank(_, _)                 \* where C looks for the element: row major
Rank(d, x) == IF d = <<>> THEN 0 ELSE Head(x) * Product(Tail(d)) + Rank(Tail(d), Tail(x))

(* Where the library keeps the element: perm lists the dimensions from the one with the largest stride to the one   *)
(* with stride one.                                                                                                  *)
Strides(d, perm) ==
  [k \in DOMAIN d |-> LET p == CHOOSE i \in DOMAIN perm : perm[i] = k IN Product([j \in 1 .. Len(d) - p |-> d[perm[p + j]]])]
RECURSIVE Dot(_, _)
Dot(x, s) == IF x = <<>> THEN 0 ELSE Head(x) * Head(s) + Dot(Tail(x), Tail(s))
Place(d, perm, x) == Dot(x, Strides(d, perm))

(* The values in the order of the indices, and what a C array over the memory m shows in that order. *)
Listed(d, f) == [r \in 1 .. Product(d) |-> f[CHOOSE x \in Indices(d) : Rank(d, x) = r - 1]]
Shown(d, m) == [r \in 1 .. Product(d) |-> m[r - 1]]

---------------------------------------------------------------------------
(* Texts as character codes. *)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
RECURSIVE Extents(_)
Extents(d) == IF d = <<>> THEN <<>> ELSE <<91>> \o Digits(Head(d)) \o <<93>> \o Extents(Tail(d))
OfSize == <<32, 111, 102, 32, 115, 105, 122, 101, 32>>                      \* " of size "
Library == <<76, 118, 65, 114, 114, 97, 121, 58, 58>>                       \* "LvArray::"
EndsWith(t, s) == Len(t) >= Len(s) /\ SubSeq(t, Len(t) - Len(s) + 1, Len(t)) = s
Contains(t, s) == \E i \in 1 .. Len(t) - Len(s) + 1 : SubSeq(t, i, i + Len(s) - 1) = s

(* One object shown. kind: array or slice (unpermuted), permuted or permutedslice, buffer, rows. dims: the extents, *)
(* the capacity of a buffer, the number of rows. values: the contents in the order of the indices.                   *)
Named(s, d) == Contains(s.text, Library) /\ EndsWith(s.text, OfSize \o d)
OneView(s, d) == Len(s.views) = 1 /\ s.views[1].dims = d
Right(e) ==
  LET s == e.shown IN
  /\ s.ok
  /\ CASE e.kind \in {"array", "slice"} -> Named(s, Extents(e.dims)) /\ OneView(s, e.dims) /\ s.views[1].values = e.values
       [] e.kind \in {"permuted", "permutedslice"} -> Named(s, Extents(e.dims)) /\ OneView(s, e.dims)
       [] e.kind = "buffer" -> Named(s, Digits(e.dims[1])) /\ OneView(s, e.dims) /\ s.views[1].values = e.values
       [] e.kind = "rows" ->
            /\ Named(s, Digits(e.dims[1]))
            /\ Len(s.rows) = e.dims[1]
            /\ \A i \in DOMAIN s.rows : s.rows[i].dims = <<Len(e.rows[i])>> /\ s.rows[i].values = e.rows[i]

VARIABLE looked
Init == looked = 0
Look(e) == looked' = looked + 1 /\ Right(e)
=============================================================================
