------------------------------ MODULE VastTrace -----------------------------
(* What arrays with more than 2^31 elements report about themselves and where their access paths lead.                 *)
EXTENDS Vast, TraceIO
VARIABLES perm, dims
Same(x, v) == \A k \in DOMAIN x : x[k] = v
TraceInit == perm = <<>> /\ dims = <<>> /\ l = 1
TraceNext ==
  /\ More /\ Advance
  /\ LET e == Event IN
     \/ e.op = "begin" /\ perm' = e.perm /\ dims' = e.dims
     \/ /\ e.op # "begin" /\ UNCHANGED <<perm, dims>>
        /\ CASE e.op = "array" -> /\ Same(e.shapes, dims) /\ Same(e.strides, VStrides(perm, dims)) /\ Same(e.ns, VSize(dims))
                                  /\ ~Less(e.capacity, VSize(dims)) /\ Same(e.empty, VSize(dims) = <<>>)
             [] e.op = "at" -> VInside(dims, e.idx) /\ Same(e.paths, VPos(perm, dims, e.idx))
             [] e.op = "slice" -> LET n == Len(e.prefix) IN
                  /\ Same(e.shapes, VDrop(dims, n)) /\ Same(e.strides, VDrop(VStrides(perm, dims), n)) /\ e.n = VSize(VDrop(dims, n))
                  /\ e.start = VSliceStart(perm, dims, e.prefix)
             \* with bounds checks: an index outside the extents is refused whatever its low bits are; never one inside
             [] e.op = "guarded" -> Same(e.refused, e.below \/ ~VInside(dims, e.idx))
             [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][TraceNext]_<<perm, dims, l>>
=============================================================================
