--------------------------- MODULE DescribeTrace ---------------------------
EXTENDS Describe, TraceIO
TraceInit == Init /\ l = 1
TraceNext ==
  /\ More /\ Advance
  /\ \/ Event.op = "begin" /\ asked' = 0
     \/ Event.op = "size" /\ Size(Event)
     \/ Event.op = "demangle" /\ Demangle(Event)
     \/ Event.op = "format" /\ Format(Event)
     \/ Event.op = "show" /\ Show(Event)
TraceSpec == TraceInit /\ [][TraceNext]_<<asked, l>>
=============================================================================
