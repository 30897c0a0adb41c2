------------------------------- MODULE MemCopy --------------------------------
(* Copies between slices of arrays, and views of an array with entries of one size as an array with entries of another *)
(* size. An array is [perm, dims, cells]; cells are its entries in memory order (for views of another type: its bytes). *)
EXTENDS Layout
VARIABLES dst, src
(* -- copies ---------------------------------------------------------------------------------------------------------- *)
DimsOf(a, at) == SliceDims(a.dims, at)
StridesOf(a, at) == SliceStrides(a.perm, a.dims, at)
At(a, at) == SlicePositions(a.perm, a.dims, at)
Runs(a, at) == Consecutive(At(a, at))
(* A slice without gaps whatever the extents: the fixed dimensions are the slowest ones. *)
Whole(a, at) == RemovedSlowest(a.perm, at)
Alike(d, da, s, sa) == DimsOf(d, da) = DimsOf(s, sa) /\ StridesOf(d, da) = StridesOf(s, sa)
MustCopy(d, da, s, sa) == Alike(d, da, s, sa) /\ Whole(d, da) /\ Whole(s, sa)
MustRefuse(d, da, s, sa) ==
  LET x == DimsOf(d, da) y == DimsOf(s, sa) u == StridesOf(d, da) v == StridesOf(s, sa) IN
  \/ Size(x) # Size(y)
  \/ Size(x) > 0 /\ \E k \in 1..Len(x) : (x[k] > 1 \/ y[k] > 1) /\ u[k] # v[k]
  \/ Size(x) > 1 /\ ~(Runs(d, da) /\ Runs(s, sa))
(* Entry by entry: what copying the slice sa of s into the slice da of d leaves in d. *)
Copied(d, da, s, sa) ==
  LET p == At(d, da) q == At(s, sa) IN
  [d EXCEPT !.cells = [c \in DOMAIN @ |-> IF \E m \in DOMAIN p : p[m] = c - 1 THEN s.cells[q[CHOOSE m \in DOMAIN p : p[m] = c - 1] + 1] ELSE @[c]]]
Start(d, s) == dst' = d /\ src' = s
Copy(da, sa) ==
  /\ ~MustRefuse(dst, da, src, sa)
  /\ DimsOf(dst, da) = DimsOf(src, sa) \/ Size(DimsOf(dst, da)) = 0
  /\ dst' = Copied(dst, da, src, sa) /\ UNCHANGED src
Refuse(da, sa) == ~MustCopy(dst, da, src, sa) /\ UNCHANGED <<dst, src>>
(* within one array, between slices that are apart *)
CopyInside(da, sa) ==
  /\ ~MustRefuse(dst, da, dst, sa)
  /\ DimsOf(dst, da) = DimsOf(dst, sa) \/ Size(DimsOf(dst, da)) = 0
  /\ dst' = Copied(dst, da, dst, sa) /\ UNCHANGED src
RefuseInside(da, sa) == ~MustCopy(dst, da, dst, sa) /\ UNCHANGED <<dst, src>>

(* -- views of another type: entries of u bytes seen as entries of t bytes -------------------------------------------- *)
Fast(perm) == perm[Len(perm)] + 1
Divides(a, b) == b % a = 0
Convertible(perm, dims, u, t) == Divides(t, dims[Fast(perm)] * u)
ViewDims(perm, dims, u, t) == [dims EXCEPT ![Fast(perm)] = (@ * u) \div t]
ViewStrides(perm, dims, u, t) == LET s == Strides(perm, dims) IN [k \in 1..Len(dims) |-> IF k = Fast(perm) THEN 1 ELSE (s[k] * u) \div t]
(* The bytes of all entries of size t at these positions, one after the other. *)
BytesAt(cells, positions, t) == [x \in 1..(t * Len(positions)) |-> cells[positions[1 + ((x - 1) \div t)] * t + 1 + ((x - 1) % t)]]
ViewBytes(a, u, t) == BytesAt(a.cells, LexPositions(ViewStrides(a.perm, a.dims, u, t), ViewDims(a.perm, a.dims, u, t)), t)
(* Writing all of entry idx of a view of entries of t bytes. *)
WriteView(idx, u, t, bytes) ==
  LET p == Dot(ViewStrides(dst.perm, dst.dims, u, t), idx) * t IN
  /\ Convertible(dst.perm, dst.dims, u, t)
  /\ Inside(ViewDims(dst.perm, dst.dims, u, t), idx)
  /\ Len(bytes) = t
  /\ dst' = [dst EXCEPT !.cells = [c \in DOMAIN @ |-> IF c > p /\ c <= p + t THEN bytes[c - p] ELSE @[c]]]
  /\ UNCHANGED src
=============================================================================
