--------------------------- MODULE IntConvTrace ----------------------------
EXTENDS IntConv, TraceIO
TraceInit == Init /\ l = 1
Begin(e) == calls' = 0
TraceNext == /\ More /\ Advance
             /\ \/ Event.op = "begin" /\ Begin(Event)
                \/ Event.op = "conv" /\ Convert(Event)
TraceSpec == TraceInit /\ [][TraceNext]_<<calls, l>>
=============================================================================
