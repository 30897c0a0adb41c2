----------------------------- MODULE StackTrace -----------------------------
(* What a stack trace shows: the functions that are being executed by the calling thread, innermost first. The functions *)
(* the specification knows are numbered from 1; 0 is any other one (main, the C library, the harness).                  *)
EXTENDS Integers, Sequences, SequencesExt
CONSTANT Most                 \* so many frames are shown at most
VARIABLES stack,              \* the functions being executed, outermost first
          outer               \* how many unknown functions are below them
vars == <<stack, outer>>
Least(a, b) == IF a < b THEN a ELSE b
Zeros(n) == [k \in 1..n |-> 0]
Call(f) == stack' = Append(stack, f) /\ UNCHANGED outer
Return == stack # <<>> /\ stack' = Front(stack) /\ UNCHANGED outer
Unwind(n) == n <= Len(stack) /\ stack' = SubSeq(stack, 1, Len(stack) - n) /\ UNCHANGED outer
(* The frames of a trace taken with the frames inner on top of the stack. *)
Whole(inner) == inner \o Reverse(stack) \o Zeros(outer)
Shown(inner) == SubSeq(Whole(inner), 1, Least(Most, Len(Whole(inner))))
=============================================================================
