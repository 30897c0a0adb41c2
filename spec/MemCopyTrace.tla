---------------------------- MODULE MemCopyTrace -----------------------------
EXTENDS MemCopy, TraceIO
Array(p, d, c) == [perm |-> p, dims |-> d, cells |-> c]
(* nothing was copied past the end of an allocation *)
Same(e) == (Has(e, "bad") => e.bad = 0) /\ (Has(e, "cells") => e.cells = dst'.cells) /\ (Has(e, "scells") => e.scells = src'.cells)
ViewOk(e, u) ==
  IF e.reported = 1 THEN ~Convertible(dst.perm, dst.dims, u, e.t)
  ELSE /\ Convertible(dst.perm, dst.dims, u, e.t)
       /\ e.dims = ViewDims(dst.perm, dst.dims, u, e.t)
       /\ e.n = Size(e.dims)
       /\ e.n > 0 => /\ e.strides = ViewStrides(dst.perm, dst.dims, u, e.t)
                     /\ e.bytes = ViewBytes(dst, u, e.t)
       /\ e.same = 1
(* src.dims holds the size of the entries of dst while views are recorded. *)
TraceInit == dst = Array(<<0>>, <<0>>, <<>>) /\ src = dst /\ l = 1
TraceNext ==
  /\ More /\ Advance
  /\ LET e == Event IN
     \/ e.op = "start" /\ Start(Array(e.perm, e.dims, e.cells), Array(e.sperm, e.sdims, e.scells))
     \/ /\ e.op = "copy"
        /\ IF e.reported = 1 THEN Refuse(e.di, e.si) ELSE Copy(e.di, e.si)
        /\ Same(e)
     \/ /\ e.op = "inside"
        /\ IF e.reported = 1 THEN RefuseInside(e.di, e.si) ELSE CopyInside(e.di, e.si)
        /\ Same(e)
     \/ e.op = "bytes" /\ Start(Array(e.perm, e.dims, e.cells), Array(<<0>>, <<e.u>>, <<>>))
     \/ e.op = "viewed" /\ ViewOk(e, src.dims[1]) /\ UNCHANGED <<dst, src>>
     \/ /\ e.op = "back" /\ UNCHANGED <<dst, src>>
        /\ e.reported = 0 /\ e.dims = dst.dims /\ e.same = 1
        /\ Size(dst.dims) > 0 => e.strides = Strides(dst.perm, dst.dims) /\ e.bytes = ViewBytes(dst, src.dims[1], src.dims[1])
     \/ e.op = "write" /\ WriteView(e.idx, src.dims[1], e.t, e.written) /\ Same(e)
TraceSpec == TraceInit /\ [][TraceNext]_<<dst, src, l>>
=============================================================================
