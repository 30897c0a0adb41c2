---------------------------- MODULE NDAddrTrace -----------------------------
(* What an array reports about itself and where each of its access paths leads. *)
EXTENDS Layout, TraceIO
VARIABLES perm, dims
Same(x, v) == \A k \in DOMAIN x : x[k] = v
(* in every one of the recorded access paths the m-th multi-index in lexicographic order is at the m-th of these positions *)
ArrayOk(e) ==
  LET s == Strides(perm, dims)
      n == Size(dims)
      at == LexPositions(s, dims)
  IN /\ Same(e.shapes, dims) /\ Same(e.strides, s) /\ Same(e.ns, n) /\ Same(e.empty, IF n = 0 THEN 1 ELSE 0)
     /\ e.usd = perm[Len(perm)] /\ e.capacity >= n
     /\ Same(e.paths, at)
     \* entry k of the array holds the value k, the destination held 5
     /\ Has(e, "sums") => LET rest == Drop(dims, 1)
                              r == LexPositions(Drop(s, 1), rest)
                          IN e.sums = [m \in 1..Size(rest) |-> 5 + dims[1] * r[m] + s[1] * ((dims[1] * (dims[1] - 1)) \div 2)]
SliceOk(e) ==
  LET d == SliceDims(dims, e.prefix)
      s == SliceStrides(perm, dims, e.prefix)
      n == Size(d)
      at == SlicePositions(perm, dims, e.prefix)
      run == Consecutive(at)
      fastest == perm[Len(perm)] - Len(e.prefix)      \* which of the remaining dimensions is the fastest; negative when it was fixed
  IN /\ e.sizes = d /\ e.strides = s /\ e.n = n /\ Same(e.paths, at) /\ e.idx = LexIndices(d) /\ e.usd = fastest
     /\ e.contiguous => run /\ fastest >= 0
     /\ fastest >= 0 /\ (RemovedSlowest(perm, e.prefix) \/ n = 0) => e.contiguous
     /\ fastest >= 0 =>
        /\ e.data = e.contiguous /\ e.range = e.contiguous
        \* the memory range of a contiguous slice covers exactly its positions, in memory order
        /\ e.contiguous /\ n > 0 => /\ e.first = SliceStart(perm, dims, e.prefix)
                                    /\ e.order = [k \in 1..n |-> e.first + k - 1] /\ Range(e.order) = Range(at)
        /\ e.contiguous /\ n = 0 => e.order = <<>>
NestedOk(e) ==
  LET at == LexPositions(Strides(perm, dims), dims)
  IN /\ Same(e.paths, at)
     \* the inner array at position p has p % 3 + 1 values 10 * p + 0, 1, ...
     /\ e.inner = [m \in DOMAIN at |-> [q \in 1..((at[m] % 3) + 1) |-> 10 * at[m] + q - 1]]
TraceInit == perm = <<>> /\ dims = <<>> /\ l = 1
TraceNext ==
  /\ More /\ Advance
  /\ LET e == Event IN
     \/ e.op = "begin" /\ perm' = e.perm /\ dims' = e.dims
     \/ UNCHANGED <<perm, dims>> /\ e.op = "array" /\ ArrayOk(e)
     \/ UNCHANGED <<perm, dims>> /\ e.op = "slice" /\ SliceOk(e)
     \/ UNCHANGED <<perm, dims>> /\ e.op = "nested" /\ NestedOk(e)
TraceSpec == TraceInit /\ [][TraceNext]_<<perm, dims, l>>
=============================================================================
