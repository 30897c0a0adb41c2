------------------------------- MODULE Layout -------------------------------
(* Memory layouts of multi-dimensional arrays. A layout is a permutation of the dimensions 0..N-1, listed from the   *)
(* slowest to the fastest in memory. Multi-indices, extents and strides are sequences with one entry per dimension;  *)
(* positions and indices count from 0.                                                                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Product(x) == FoldSeq(LAMBDA a, b : a * b, 1, x)
Size(dims) == Product(dims)
Identity(n) == [k \in 1..n |-> k - 1]
(* Where in the permutation dimension d (from 0) is listed. *)
Rank(perm, d) == CHOOSE i \in 1..Len(perm) : perm[i] = d
(* The stride of a dimension is the product of the extents of all faster dimensions. *)
Strides(perm, dims) ==
  LET n == Len(perm)
      S[i \in 1..n] == IF i = n THEN 1 ELSE S[i + 1] * dims[perm[i + 1] + 1]
  IN [d \in 1..n |-> S[Rank(perm, d - 1)]]
Dot(x, y) == LET D[i \in 0..Len(x)] == IF i = 0 THEN 0 ELSE D[i - 1] + x[i] * y[i] IN D[Len(x)]
Pos(perm, dims, idx) == Dot(Strides(perm, dims), idx)
(* The multi-index at a position, for strides s of the extents dims. *)
Digits(dims, s, p) == [k \in 1..Len(dims) |-> (p \div s[k]) % dims[k]]
IndexAt(perm, dims, p) == Digits(dims, Strides(perm, dims), p)
(* All multi-indices in lexicographic order. *)
LexIndices(dims) == LET s == Strides(Identity(Len(dims)), dims) IN [m \in 1..Size(dims) |-> Digits(dims, s, m - 1)]
LexPositions(strides, dims) ==
  LET s == Strides(Identity(Len(dims)), dims)
      n == Len(dims)
      D(m) == LET E[i \in 0..n] == IF i = 0 THEN 0 ELSE E[i - 1] + strides[i] * ((m \div s[i]) % dims[i]) IN E[n]
  IN [m \in 1..Size(dims) |-> D(m - 1)]
Inside(dims, idx) == \A k \in 1..Len(dims) : idx[k] >= 0 /\ idx[k] < dims[k]
Drop(x, n) == SubSeq(x, n + 1, Len(x))
(* The slice that fixes the leading indices: the extents and strides of the others, starting at the position of the first. *)
SliceDims(dims, prefix) == Drop(dims, Len(prefix))
SliceStrides(perm, dims, prefix) == Drop(Strides(perm, dims), Len(prefix))
SliceStart(perm, dims, prefix) == Dot(SubSeq(Strides(perm, dims), 1, Len(prefix)), prefix)
SlicePositions(perm, dims, prefix) ==
  LET x == LexPositions(SliceStrides(perm, dims, prefix), SliceDims(dims, prefix))
      b == SliceStart(perm, dims, prefix)
  IN [m \in DOMAIN x |-> b + x[m]]
(* The positions are a run without gaps. *)
Consecutive(x) == x = <<>> \/ LET S == Range(x)
                                  lo == CHOOSE v \in S : \A w \in S : v <= w
                              IN S = lo..(lo + Len(x) - 1)
(* The dimensions a slice removed are all slower than the remaining ones: the slice then is a run whatever the extents. *)
RemovedSlowest(perm, prefix) == \A i \in 1..Len(prefix) : perm[i] < Len(prefix)
=============================================================================
