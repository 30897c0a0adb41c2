------------------------------ MODULE LayoutMC ------------------------------
(* Layouts over all permutations and all extents up to a bound: one state per (permutation, extents).               *)
EXTENDS Layout, TLC
CONSTANTS MaxDims, MaxExtent
VARIABLES perm, dims
Perms(n) == {p \in [1..n -> 0..(n - 1)] : Range(p) = 0..(n - 1)}
Extent(n) == 0..(IF n > 3 THEN MaxExtent - 1 ELSE MaxExtent)
Init == \E n \in 1..MaxDims : perm \in Perms(n) /\ dims \in [1..n -> Extent(n)]
Next == UNCHANGED <<perm, dims>>
Spec == Init /\ [][Next]_<<perm, dims>>
S == Strides(perm, dims)
ND == Len(perm)
All == LexIndices(dims)
OneToOne ==
  /\ Len(All) = Size(dims) /\ Cardinality(Range(All)) = Size(dims)
  /\ \A m \in DOMAIN All : Inside(dims, All[m])
  /\ {Pos(perm, dims, All[m]) : m \in DOMAIN All} = 0..(Size(dims) - 1)
  /\ \A p \in 0..(Size(dims) - 1) : Inside(dims, IndexAt(perm, dims, p)) /\ Pos(perm, dims, IndexAt(perm, dims, p)) = p
UnitStride == S[perm[ND] + 1] = 1
Growing == (\A k \in 1..ND : dims[k] > 0) => \A i \in 1..(ND - 1) : S[perm[i] + 1] >= S[perm[i + 1] + 1]
Lexicographic == \A m \in 1..(Len(All) - 1) : \E k \in 1..ND : All[m][k] < All[m + 1][k] /\ \A j \in 1..(k - 1) : All[m][j] = All[m + 1][j]
LexAgrees == LexPositions(S, dims) = [m \in DOMAIN All |-> Pos(perm, dims, All[m])]
Fixed == UNION {[1..k -> 0..MaxExtent] : k \in 0..(ND - 1)}
SliceAgrees ==
  \A p \in Fixed : Inside(SubSeq(dims, 1, Len(p)), p) =>
    LET d == SliceDims(dims, p)
        L == LexIndices(d)
        x == SlicePositions(perm, dims, p)
    IN /\ x = [m \in DOMAIN L |-> Pos(perm, dims, p \o L[m])]
       /\ RemovedSlowest(perm, p) => Consecutive(x)
=============================================================================
