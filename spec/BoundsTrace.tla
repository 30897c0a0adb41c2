---------------------------- MODULE BoundsTrace -----------------------------
EXTENDS Bounds, TraceIO
TraceInit == shape = <<>> /\ checks = {} /\ l = 1
TraceNext ==
  /\ More /\ Advance
  /\ LET e == Event IN
     \/ /\ e.op = "begin"
        /\ checks' = {"always"} \cup (IF e.bounds = 1 THEN {"bounds"} ELSE {}) \cup (IF e.debug = 1 THEN {"debug"} ELSE {})
        /\ shape' = e.is
     \/ e.op = "call" /\ Done(shape, e.call, e.is, e.reported = 1)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
