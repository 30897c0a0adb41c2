------------------------------- MODULE ConcMC --------------------------------
EXTENDS Conc, TLC, Json
CONSTANTS NThreads, MaxOps, Split
VARIABLES first, path
mcvars == <<st, first, path>>
Rows == <<<<101>>, <<>>>>
Cols == <<<<2, 5, 7>>, <<4>>>>
Ents == <<<<10, 20, 30>>, <<40>>>>
A(t, k, r) == [what |-> "append", r |-> r, v |-> 10 * t + k]
B(t, k, r, cols) == [what |-> "add", r |-> r, cols |-> cols, vals |-> [i \in DOMAIN cols |-> t + i + k]]
(* The operations thread t can have as its k-th. *)
Ops(t, k) == {A(t, k, r) : r \in {1, 2}} \cup {B(t, k, 1, <<2, 7>>), B(t, k, 1, <<5, 7>>), B(t, k, 2, <<4>>)}
(* up to the names of the threads *)
Kind(o) == CASE o.what = "append" -> o.r [] o.r = 2 -> 3 [] o.cols[1] = 2 -> 4 [] OTHER -> 5
Key(p) == IF Len(p) = 0 THEN 0 ELSE IF Len(p) = 1 THEN Kind(p[1]) ELSE Kind(p[1]) * 6 + Kind(p[2])
ProgsOf(t) == {<<a>> : a \in Ops(t, 1)} \cup (IF MaxOps > 1 THEN {<<a, b>> : a \in Ops(t, 1), b \in Ops(t, 2)} ELSE {})
Programs == {p \in [1..NThreads -> UNION {ProgsOf(t) : t \in 1..NThreads}] : (\A t \in 1..NThreads : p[t] \in ProgsOf(t)) /\ (\A t \in 1..(NThreads - 1) : Key(p[t]) <= Key(p[t + 1]))}
Init == /\ \E p \in Programs : st = Start(Rows, Cols, Ents, p, Split)
        /\ first = st /\ path = <<>>
Next == \E t \in Threads : /\ ~Finished(st, t) /\ st' = Step(st, t) /\ path' = Append(path, t) /\ UNCHANGED first
Spec == Init /\ [][Next]_mcvars
View == st
(* all schedules are wanted, so the paths are not identified *)
RECURSIVE Flat(_, _)
Flat(p, t) == IF t > Len(p) THEN <<>>
              ELSE [k \in DOMAIN p[t] |-> IF p[t][k].what = "append" THEN [op |-> "append", t |-> t, r |-> p[t][k].r, v |-> p[t][k].v]
                                          ELSE [op |-> "add", t |-> t, r |-> p[t][k].r, cols |-> p[t][k].cols, vals |-> p[t][k].vals]] \o Flat(p, t + 1)
Emit == IF Done(st') THEN PrintT("@" \o ToJson(Flat(st.prog, 1) \o <<[op |-> "run", ts |-> path']>>)) ELSE TRUE
Right == NothingLost(st, first.slots, first.ents)
RightAlways == Returned(st) /\ OwnSlots(st)
Ends == Done(st) \/ \E t \in Threads : ~Finished(st, t)
=============================================================================
