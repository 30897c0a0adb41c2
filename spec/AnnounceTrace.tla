---------------------------- MODULE AnnounceTrace ----------------------------
EXTENDS Announce, TraceIO
TraceInit == kind = "array" /\ obj = [x \in Objects |-> Gone] /\ on = TRUE /\ copied = 0 /\ said = 0 /\ asked = 0 /\ l = 1
TraceNext ==
  /\ More /\ Advance /\ asked' = asked
  /\ \/ /\ Event.op = "begin"
        /\ kind' = Event.kind /\ obj' = [x \in Objects |-> Gone] /\ on' = TRUE /\ copied' = 0 /\ said' = 0
     \/ /\ Event.op # "begin"
        /\ Heard(Event.copies, Event.lines)
        /\ CASE Event.op = "make" -> Make(Event.x, Event.typ, Event.raw, <<>>)
             [] Event.op = "name" -> Name(Event.x, Event.typ, Event.name)
             [] Event.op \in {"grow", "move", "view"} -> Same(Event.x)
             [] Event.op = "elements" -> Elements(Event.x, Event.n)
             [] Event.op = "nameElement" -> NameElement(Event.x, Event.i, Event.name)
             [] Event.op = "drop" -> DropElement(Event.x, Event.i)
             [] Event.op = "copy" -> Copy(Event.x, Event.y)
             [] Event.op = "into" -> MoveInto(Event.x, Event.y)
             [] Event.op = "swap" -> Swap(Event.x, Event.y)
             [] Event.op = "absorb" -> Absorb(Event.x, Event.theirs)
             [] Event.op = "free" -> Free(Event.x)
             [] Event.op = "callbacks" -> Callbacks(Event.n = 1)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
