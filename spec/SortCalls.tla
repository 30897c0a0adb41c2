----------------------------- MODULE SortCalls ------------------------------
(* What the sorting routines of src/sortedArrayManipulation.hpp do, as single calls. Values are integers of which a  *)
(* comparator sees only the part v \div div (so that equal-comparing values can be told apart), ascending or         *)
(* descending.                                                                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Lt(a, b, e) == IF e.desc THEN b \div e.div < a \div e.div ELSE a \div e.div < b \div e.div
Ascends(x, e) == \A i \in 1..(Len(x) - 1) : ~Lt(x[i + 1], x[i], e)
IsStrict(x, e) == \A i \in 1..(Len(x) - 1) : Lt(x[i], x[i + 1], e)
SameBag(x, y) == Len(x) = Len(y) /\ SortSeq(x, <) = SortSeq(y, <)

Sort(e) == e.outside /\ SameBag(e.in, e.out) /\ Ascends(e.out, e)
(* data was 1..n before: it says where each value came from. *)
DualSort(e) ==
  /\ e.outside /\ Len(e.out) = Len(e.in) /\ Len(e.data) = Len(e.in)
  /\ Cardinality(ToSet(e.data)) = Len(e.in) /\ ToSet(e.data) \subseteq DOMAIN e.in
  /\ \A i \in DOMAIN e.out : e.out[i] = e.in[e.data[i]]
  /\ Ascends(e.out, e)
TestSorted(e) == e.outside /\ e.out = e.in /\ e.ret = Ascends(e.in, e)
TestStrict(e) == e.outside /\ e.out = e.in /\ e.ret = IsStrict(e.in, e)
(* Of each group of values that compare equal one remains. *)
Key(v, e) == v \div e.div
Unique(e) ==
  /\ e.outside
  /\ e.ret = Cardinality({Key(e.in[i], e) : i \in DOMAIN e.in})
  /\ Len(e.out) = e.ret /\ IsStrict(e.out, e)
  /\ ToSet(e.out) \subseteq ToSet(e.in)
Description(e) == e.sorted = (e.d \in {0, 2}) /\ e.unique = (e.d \in {0, 1})
=============================================================================
