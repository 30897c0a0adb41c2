---------------------------- MODULE GdbViewMC ----------------------------
(* Every object with up to MaxDims extents up to MaxExtent and every layout, and every slice taken from it by fixing *)
(* the first indices: where the C array shows the contents.                                                          *)
EXTENDS GdbView
CONSTANTS MaxDims, MaxExtent
VARIABLES d, perm, prefix
vars == <<looked, d, perm, prefix>>
Perms(n) == {p \in [1 .. n -> 1 .. n] : \A i, j \in 1 .. n : p[i] = p[j] => i = j}
MCInit == Init /\ prefix = <<>> /\ \E n \in 1 .. MaxDims : d \in [1 .. n -> 0 .. MaxExtent] /\ perm \in Perms(n)
Slice ==   \* obj[ i ]
  /\ Len(prefix) < Len(d) - 1
  /\ \E i \in 0 .. d[Len(prefix) + 1] - 1 : prefix' = prefix \o <<i>>
  /\ UNCHANGED <<looked, d, perm>>
MCSpec == MCInit /\ [][Slice]_vars

Below == SubSeq(d, Len(prefix) + 1, Len(d))
Values == [x \in Indices(d) |-> Rank(d, x)]                   \* all different
Memory == [a \in 0 .. Product(d) - 1 |-> Values[CHOOSE x \in Indices(d) : Place(d, perm, x) = a]]
Start == Dot(prefix, SubSeq(Strides(d, perm), 1, Len(prefix)))
Contents == Listed(Below, [x \in Indices(Below) |-> Values[prefix \o x]])
InView == Start + Product(Below) <= Product(d)
View == Shown(Below, [a \in 0 .. Product(Below) - 1 |-> Memory[Start + a]])

Ranks == {Rank(d, x) : x \in Indices(d)} = 0 .. Product(d) - 1
Places == {Place(d, perm, x) : x \in Indices(d)} = 0 .. Product(d) - 1
Unpermuted == (perm = [i \in DOMAIN d |-> i]) => InView /\ View = Contents
(* With another layout the view shows the contents only when no two extents above one have changed places, which is *)
(* why the manual excludes it.                                                                                       *)
Long == SelectSeq(perm, LAMBDA k : d[k] > 1)
Sorted(s) == \A i, j \in DOMAIN s : i < j => s[i] < s[j]
Permuted == (prefix = <<>> /\ Product(d) > 0) => ((View = Contents) <=> Sorted(Long))
=============================================================================
