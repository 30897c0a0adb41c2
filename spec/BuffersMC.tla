----------------------------- MODULE BuffersMC ------------------------------
EXTENDS Buffers, Json
CONSTANTS TheKind, MaxLen, MaxDepth
VARIABLE path
Op(o) == path' = Append(path, o)
Kinds == [shared |-> [fixed |-> 0, empties |-> TRUE], records |-> [fixed |-> 0, empties |-> FALSE], fixed |-> [fixed |-> MaxLen, empties |-> TRUE]]
Init == /\ kind = Kinds[TheKind] /\ ref = [h \in Handles |-> h] /\ val = [k \in Ids |-> <<>>] /\ cap = [k \in Ids |-> kind.fixed]
        /\ at = [h \in Handles |-> IF kind.fixed > 0 THEN h ELSE 0] /\ path = <<>>
(* In this model a block that grows doubles what is needed and moves to an unused place. *)
New(h) == CHOOSE p \in 1..(Cardinality(Handles) + 1) : \A g \in Handles : at[g] # p
V(h) == val[ref[h]]
(* capacity when h's block must hold n values *)
Caps(h, n) == cap' = IF n <= cap[ref[h]] THEN cap ELSE [cap EXCEPT ![ref[h]] = 2 * n]
Needs(h, n) == IF NoRoom(h, n) THEN cap' = cap ELSE Caps(h, n)
Next ==
  \E h \in Handles :
    \/ /\ at' = [at EXCEPT ![h] = IF IsFixed THEN h ELSE 0] /\ Fresh(h) /\ Op([op |-> "fresh", h |-> h])
    \/ \E g \in Handles \ {h} :
       \/ at' = [at EXCEPT ![h] = IF IsFixed THEN h ELSE at[g]] /\ Copy(h, g) /\ \E how \in {0, 1, 2} : Op([op |-> "copy", h |-> h, g |-> g, how |-> how])
       \/ at' = (IF IsFixed THEN [at EXCEPT ![h] = h] ELSE [at EXCEPT ![h] = at[g], ![g] = IF kind.empties THEN 0 ELSE at[g]]) /\ Move(h, g)
          /\ \E how \in {0, 1} : Op([op |-> "move", h |-> h, g |-> g, how |-> how])
       \/ /\ Usable(h) /\ Usable(g) /\ Caps(h, Len(V(g))) /\ at' = (IF cap' = cap THEN at ELSE [at EXCEPT ![h] = New(h)])
          /\ CopyValues(h, g) /\ Op([op |-> "copyInto", h |-> h, g |-> g])
    \/ at' = (IF IsFixed THEN at ELSE [at EXCEPT ![h] = 0]) /\ Free(h) /\ Op([op |-> "free", h |-> h])
    \/ \E n \in 0..(MaxLen + 1) :
       \/ at' = (IF IsFixed THEN at ELSE [at EXCEPT ![h] = New(h)]) /\ SetCapacity(h, n) /\ Op([op |-> "setCapacity", h |-> h, n |-> n, how |-> n % 2])
       \/ at' = at /\ SetCapacityRefused(h, n) /\ Op([op |-> "setCapacity", h |-> h, n |-> n, how |-> n % 2])
       \/ Usable(h) /\ Needs(h, n) /\ at' = (IF cap' = cap THEN at ELSE [at EXCEPT ![h] = New(h)]) /\ (Reserve(h, n) \/ Refused(h, n)) /\ Op([op |-> "reserve", h |-> h, n |-> n])
       \/ Usable(h) /\ Needs(h, n) /\ at' = (IF cap' = cap THEN at ELSE [at EXCEPT ![h] = New(h)]) /\ (Resize(h, n, 1) \/ Refused(h, n)) /\ Op([op |-> "resize", h |-> h, n |-> n, v |-> 1])
    \/ Usable(h) /\ Needs(h, Len(V(h)) + 1) /\ at' = (IF cap' = cap THEN at ELSE [at EXCEPT ![h] = New(h)]) /\ (Push(h, 2) \/ Refused(h, Len(V(h)) + 1)) /\ Op([op |-> "push", h |-> h, v |-> 2])
    \/ \E i \in 0..(IF Usable(h) THEN Len(V(h)) ELSE -1) :
       \/ \E vs \in {<<3>>, <<>>, <<4, 5>>} :
             /\ Needs(h, Len(V(h)) + Len(vs)) /\ at' = (IF cap' = cap THEN at ELSE [at EXCEPT ![h] = New(h)])
             /\ (Insert(h, i, vs) \/ Refused(h, Len(V(h)) + Len(vs)))
             /\ Op([op |-> IF Len(vs) = 1 THEN "emplace" ELSE "insert", h |-> h, i |-> i, vals |-> vs])
       \/ cap' = cap /\ at' = at /\ Erase(h, i) /\ Op([op |-> "erase", h |-> h, i |-> i])
       \/ cap' = cap /\ at' = at /\ Write(h, i, 6) /\ Op([op |-> "write", h |-> h, i |-> i, v |-> 6])
    \/ Usable(h) /\ cap' = cap /\ at' = at /\ Pop(h) /\ Op([op |-> "pop", h |-> h])
Spec == Init /\ [][Next]_<<vars, path>>
Bound == (\A h \in Handles : Usable(h) => Len(V(h)) <= MaxLen /\ cap[ref[h]] <= 2 * MaxLen) /\ Len(path) < MaxDepth
View == <<ref, [h \in Handles |-> IF Usable(h) THEN <<V(h), cap[ref[h]]>> ELSE <<>>]>>
Emit == (\A h \in Handles : ref'[h] # 0 => Len(val'[ref'[h]]) <= MaxLen /\ cap'[ref'[h]] <= 2 * MaxLen) /\ PrintT("@" \o ToJson(path'))
(* A block that some handle uses is never lost while its storage is held (only Free releases). *)
NeverLost == [][\A k \in Ids : Holders(k) # {} /\ cap[k] > 0 /\ ~IsFixed => path' = path \/ path'[Len(path')].op = "free" \/ \E h \in Handles : ref'[h] = k]_<<vars, path>>
=============================================================================
