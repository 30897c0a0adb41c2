-------------------------------- MODULE Conc ---------------------------------
(* Threads that append to the rows of one array of arrays (emplaceBackAtomic) and threads that add to the entries of  *)
(* one matrix (addToRow with an atomic policy). An append has two steps, it takes the next slot of the row and then   *)
(* writes its value there; an addition has one step per column. The steps of different threads interleave freely.     *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE st
(* st.slots: per row the slots that were taken, 0 where nothing was written yet.                                      *)
(* st.cols, st.ents: per row of the matrix its columns and entries.                                                   *)
(* st.prog: per thread its operations, [what |-> "append", r, v] or [what |-> "add", r, cols, vals].                   *)
(* st.pc: per thread the operation it is in, k the step of it that is next, and the slot it took.                      *)
(* st.split: whether the increment of a size is not atomic (to see that it matters).                                  *)
Threads == DOMAIN st.prog
Finished(s, t) == s.pc[t].op > Len(s.prog[t])
Done(s) == \A t \in DOMAIN s.prog : Finished(s, t)
Current(s, t) == s.prog[t][s.pc[t].op]
Next1(p) == [op |-> p.op + 1, k |-> 1, slot |-> 0]
At(x, v) == CHOOSE i \in DOMAIN x : x[i] = v
(* The state after the next step of thread t. *)
Step(s, t) ==
  LET o == Current(s, t) p == s.pc[t] IN
  IF o.what = "append"
  THEN IF s.split
       THEN CASE p.k = 1 -> [s EXCEPT !.pc[t] = [p EXCEPT !.k = 2, !.slot = Len(s.slots[o.r]) + 1]]
              [] p.k = 2 -> [s EXCEPT !.slots[o.r] = IF Len(@) < p.slot THEN Append(@, 0) ELSE SubSeq(@, 1, p.slot), !.pc[t] = [p EXCEPT !.k = 3]]
              [] OTHER -> [s EXCEPT !.slots[o.r] = [i \in DOMAIN @ |-> IF i = p.slot THEN o.v ELSE @[i]], !.pc[t] = Next1(p)]
       ELSE IF p.k = 1 THEN [s EXCEPT !.slots[o.r] = Append(@, 0), !.pc[t] = [p EXCEPT !.k = 2, !.slot = Len(s.slots[o.r]) + 1]]
            ELSE [s EXCEPT !.slots[o.r][p.slot] = o.v, !.pc[t] = Next1(p)]
  ELSE IF p.k > Len(o.cols) THEN [s EXCEPT !.pc[t] = Next1(p)]
       ELSE [s EXCEPT !.ents[o.r][At(s.cols[o.r], o.cols[p.k])] = @ + o.vals[p.k],
                      !.pc[t] = IF p.k = Len(o.cols) THEN Next1(p) ELSE [p EXCEPT !.k = @ + 1]]
Start(rows, cols, ents, prog, split) ==
  [slots |-> rows, cols |-> cols, ents |-> ents, prog |-> prog, split |-> split, pc |-> [t \in DOMAIN prog |-> [op |-> 1, k |-> 1, slot |-> 0]]]

(* ------------------------------------------------------------------ what holds ---------------------------------- *)
Bag(s) == [v \in {s[i] : i \in DOMAIN s} |-> Cardinality({i \in DOMAIN s : s[i] = v})]
RECURSIVE Values(_, _)
Values(ops, r) == IF ops = <<>> THEN <<>> ELSE (IF ops[1].what = "append" /\ ops[1].r = r THEN <<ops[1].v>> ELSE <<>>) \o Values(Tail(ops), r)
RECURSIVE AllValues(_, _, _)
AllValues(prog, t, r) == IF t > Len(prog) THEN <<>> ELSE Values(prog[t], r) \o AllValues(prog, t + 1, r)
RECURSIVE Adds(_, _, _)
Adds(ops, r, c) == IF ops = <<>> THEN 0 ELSE (IF ops[1].what = "add" /\ ops[1].r = r /\ \E i \in DOMAIN ops[1].cols : ops[1].cols[i] = c THEN ops[1].vals[At(ops[1].cols, c)] ELSE 0) + Adds(Tail(ops), r, c)
RECURSIVE AllAdds(_, _, _, _)
AllAdds(prog, t, r, c) == IF t > Len(prog) THEN 0 ELSE Adds(prog[t], r, c) + AllAdds(prog, t + 1, r, c)
(* When all have finished, every value is in exactly one slot of its row, the values that were there are where they    *)
(* were, and every entry is the sum of what was added to it.                                                          *)
NothingLost(s, rows, ents) ==
  Done(s) => /\ \A r \in DOMAIN rows : /\ Bag(s.slots[r]) = Bag(rows[r] \o AllValues(s.prog, 1, r))
                                       /\ SubSeq(s.slots[r], 1, Len(rows[r])) = rows[r]
             /\ \A r \in DOMAIN ents : \A i \in DOMAIN ents[r] : s.ents[r][i] = ents[r][i] + AllAdds(s.prog, 1, r, s.cols[r][i])
(* A value whose append has returned is there, and two threads never have the same slot. *)
Returned(s) == \A t \in DOMAIN s.prog : \A k \in 1..(s.pc[t].op - 1) : LET o == s.prog[t][k] IN o.what = "append" => \E i \in DOMAIN s.slots[o.r] : s.slots[o.r][i] = o.v
OwnSlots(s) == \A t, u \in DOMAIN s.prog : (t # u /\ ~Finished(s, t) /\ ~Finished(s, u) /\ s.pc[t].slot # 0 /\ s.pc[u].slot # 0) => (Current(s, t).r # Current(s, u).r \/ s.pc[t].slot # s.pc[u].slot)
=============================================================================
