---------------------------- MODULE StackTraceMC ----------------------------
EXTENDS StackTrace, TLC, Json
CONSTANTS Functions, MaxDepth, Outer
VARIABLES path, last          \* last: the trace taken last and the stack at the time
Take(how) == last' = [shown |-> Shown(<<>>), stack |-> stack] /\ UNCHANGED vars /\ path' = Append(path, [op |-> "trace", how |-> how])
Init == stack = <<>> /\ outer = Outer /\ path = <<>> /\ last = [shown |-> <<>>, stack |-> <<>>]
Next ==
  \/ \E f \in Functions : Call(f) /\ UNCHANGED last /\ path' = Append(path, [op |-> "call", f |-> f])
  \/ Return /\ UNCHANGED last /\ path' = Append(path, [op |-> "return"])
  \/ \E n \in 2..3 : Unwind(n) /\ UNCHANGED last /\ path' = Append(path, [op |-> "unwind", n |-> n])
  \/ \E how \in 0..4 : Take(how)
Spec == Init /\ [][Next]_<<vars, path, last>>
View == <<stack, last>>
Bound == Len(path) < MaxDepth
Emit == PrintT("@" \o ToJson(path'))
(* No frame is left out or shown twice: what is shown says which calls are being executed, up to what is cut off. *)
Complete == LET s == Shown(<<>>) IN
  /\ Len(s) = Least(Most, Len(stack) + outer)
  /\ \A k \in 1..Least(Most, Len(stack)) : s[k] = stack[Len(stack) + 1 - k]
  /\ \A k \in (Len(stack) + 1)..Len(s) : s[k] = 0
(* The innermost frame shown is always that of the function being executed. *)
Innermost == stack # <<>> => Shown(<<>>)[1] = Last(stack)
(* The same calls give the same trace, whatever happened in between; a call adds one frame in front and a return takes it away. *)
Same == last.shown # <<>> /\ last.stack = stack => Shown(<<>>) = last.shown
OneMore == [][(\E f \in Functions : Call(f)) => \/ Shown(<<>>)' = <<Last(stack')>> \o Shown(<<>>)
                                                \/ Len(Shown(<<>>)) = Most /\ Shown(<<>>)' = <<Last(stack')>> \o Front(Shown(<<>>))]_<<vars, path, last>>
=============================================================================
