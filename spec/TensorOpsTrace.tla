---------------------------- MODULE TensorOpsTrace ----------------------------
EXTENDS TensorOps, TraceIO
TraceInit == dst = <<>> /\ l = 1
TraceNext ==
  /\ More /\ Advance
  /\ LET e == Event IN
     \/ e.op = "begin" /\ dst' = e.d
     \/ /\ e.op = "call" /\ Apply(e.f, e.m, e.n, e.k, e.a, e.b, e.s, e.now, e.after, e.ret)
        (* the inputs, and everything around the operands, are as they were *)
        /\ Len(e.now) = Len(dst) /\ e.inputs = 1 /\ e.around = 1
     \/ e.op = "mismatch" /\ Refuse(e.reported = 1, e.now) /\ e.around = 1
TraceSpec == TraceInit /\ [][TraceNext]_<<dst, l>>
=============================================================================
