--------------------------- MODULE StackTraceTrace --------------------------
EXTENDS StackTrace, TraceIO
VARIABLES located             \* whether every source location is known in this build
TraceInit == stack = <<>> /\ outer = 0 /\ located = FALSE /\ l = 1
(* The frames of whatever took the trace and is not among the functions: those in front of the first known one. *)
Inner(frames) == LET n == FoldLeft(LAMBDA a, f : IF a.done \/ f \in 1..99 THEN [a EXCEPT !.done = TRUE] ELSE [a EXCEPT !.n = a.n + 1], [n |-> 0, done |-> FALSE], frames).n
                 IN SubSeq(frames, 1, n)
Took(e) ==
  LET own == IF e.how = "signal" /\ stack # <<>> THEN Inner(e.frames) ELSE <<>> IN
  /\ IF e.how = "signal"
     \* a handler called by the system: stackTraceHandler, the handler, and what the system needs to get there
     THEN e.frames # <<>> /\ e.frames[1] = 100 /\ (stack # <<>> => Len(own) < Most /\ e.frames = Shown(own))
     ELSE e.frames = Shown(<<>>)
  /\ e.said = Len(e.frames)
  /\ e.numbers = [k \in 1..Len(e.frames) |-> k - 1]
  \* a location is that of the function in whose frame it is shown
  /\ \A k \in 1..Len(e.frames) : e.places[k] = -1 \/ e.places[k] = e.frames[k]
  /\ (located /\ e.how = "located") => \A k \in 1..Len(e.frames) : e.frames[k] \in 1..99 => e.places[k] = e.frames[k]
  /\ e.how = "plain" => \A k \in 1..Len(e.frames) : e.places[k] = -1
  \* nothing is left behind
  /\ e.left = 0
TraceNext ==
  /\ More /\ Advance
  /\ \E e \in {Event} :
     CASE e.op = "begin" -> /\ stack' = <<>> /\ outer' = e.outer /\ located' = e.located
                            /\ e.outer > 0
       [] e.op = "call" -> Call(e.f) /\ UNCHANGED located
       [] e.op = "return" -> Return /\ UNCHANGED located
       [] e.op = "unwind" -> Unwind(e.n) /\ UNCHANGED located
       [] e.op = "trace" -> Took(e) /\ UNCHANGED <<vars, located>>
       [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, located, l>>
=============================================================================
