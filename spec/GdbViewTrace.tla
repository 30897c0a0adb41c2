--------------------------- MODULE GdbViewTrace ---------------------------
EXTENDS GdbView, TraceIO
TraceInit == Init /\ l = 1
TraceNext ==
  /\ More /\ Advance
  /\ \/ Event.op = "begin" /\ looked' = 0
     \/ Event.op = "look" /\ Look(Event)
TraceSpec == TraceInit /\ [][TraceNext]_<<looked, l>>
=============================================================================
