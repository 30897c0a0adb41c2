------------------------------ MODULE ConcTrace ------------------------------
EXTENDS Conc, TraceIO
VARIABLE first
Sizes(s) == [r \in DOMAIN s.slots |-> Len(s.slots[r])]
RECURSIVE Steps(_, _, _)
Steps(s, t, k) == IF k = 0 THEN s ELSE Steps(Step(s, t), t, k - 1)
RECURSIVE Left(_, _)
Left(ops, k) == IF k > Len(ops) THEN 0 ELSE (IF ops[k].what = "append" THEN 2 ELSE Len(ops[k].cols)) + Left(ops, k + 1)
(* How many steps thread t can still take. *)
Ahead(s, t) == IF Finished(s, t) THEN 0 ELSE Left(s.prog[t], s.pc[t].op) - (s.pc[t].k - 1)
Least(a, b) == IF a < b THEN a ELSE b
TraceInit == st = Start(<<>>, <<>>, <<>>, <<>>, FALSE) /\ first = st /\ l = 1
TraceNext ==
  /\ More /\ Advance
  /\ LET e == Event IN
     \/ e.op = "begin" /\ st' = Start(e.rows, e.cols, e.ents, e.prog, FALSE) /\ first' = st'
     \* what a thread did until it was suspended: some of its steps, and nothing else
     \/ /\ e.op = "step" /\ UNCHANGED first
        /\ \E k \in 0..Least(Ahead(st, e.t), 8) :
             /\ st' = Steps(st, e.t, k)
             /\ e.sizes = Sizes(st')
             \* the operations that returned are complete, and the next one may be
             /\ e.done \in {st'.pc[e.t].op - 1, st'.pc[e.t].op - 2}
             /\ Obs(e, "ents", st'.ents)
             /\ Returned(st') /\ OwnSlots(st')
     \/ /\ e.op = "final" /\ UNCHANGED <<st, first>> /\ Done(st)
        /\ e.rows = st.slots /\ e.ents = st.ents /\ NothingLost(st, first.slots, first.ents)
     \* real threads: only the end is seen
     \/ /\ e.op = "free" /\ UNCHANGED first /\ e.races = 0
        /\ st' = [st EXCEPT !.slots = e.rows, !.ents = e.ents, !.pc = [t \in Threads |-> [op |-> Len(st.prog[t]) + 1, k |-> 1, slot |-> 0]]]
        /\ DOMAIN e.rows = DOMAIN st.slots /\ NothingLost(st', first.slots, first.ents)
TraceSpec == TraceInit /\ [][TraceNext]_<<st, first, l>>
=============================================================================
