---------------------------- MODULE SignalsTrace ----------------------------
EXTENDS Signals, TraceIO
After(e) == \A i \in DOMAIN e.disp : disp'[e.disp[i][1]] = e.disp[i][2]
Traced(e) ==
  /\ e.named = (IF e.s \in DOMAIN Name THEN "Received signal " \o ToString(e.s) \o ": " \o Name[e.s] ELSE "")
  /\ e.fpe = (e.s = 8)
  /\ e.frames >= 1 /\ e.marker
  /\ e.calls = (IF e.exit THEN 1 ELSE 0)
  /\ e.exit => e.undone                \* no listed signal reaches a handler while the error handler runs
TraceInit == Init /\ l = 1
TraceNext ==
  /\ More /\ Advance
  /\ \/ Event.op = "begin" /\ disp' = [s \in Sigs |-> Default] /\ first' = <<>> /\ errh' = FALSE
     \/ Event.op = "user" /\ User(Event.s, Event.d) /\ After(Event)
     \/ Event.op = "install" /\ Install(Event.h) /\ After(Event)
     \/ Event.op = "reset" /\ Reset /\ After(Event)
     \/ Event.op = "errh" /\ ErrorHandler /\ After(Event)
     \/ Event.op = "trace" /\ StackTrace(Event.exit) /\ Traced(Event) /\ After(Event)
     \/ /\ Event.op = "raise" /\ Raise(Event.s) /\ After(Event)
        /\ LET f == Effect(Event.s) IN Event.died = f.died /\ Event.ran = f.ran /\ Event.calls = f.calls
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
