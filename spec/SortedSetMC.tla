---------------------------- MODULE SortedSetMC -----------------------------
EXTENDS SortedSet, Json
CONSTANTS Keys, MaxDepth
VARIABLE path
Op(o) == path' = Append(path, o)
Init == set = [o \in Objs |-> {}] /\ room = [o \in Objs |-> 0] /\ addr = [o \in Objs |-> 0] /\ path = <<>>
Pool == 1..(Cardinality(Objs) + 1)
Unused == CHOOSE p \in Pool : \A q \in Objs : addr[q] # p
Places == addr' \in {addr, [o \in Objs |-> addr[o]]} \cup {[addr EXCEPT ![o] = Unused] : o \in Objs}
                   \cup {[addr EXCEPT ![o] = addr[p], ![p] = 0] : o, p \in Objs} \cup {[addr EXCEPT ![o] = addr[p], ![p] = addr[o]] : o, p \in Objs} \cup {[addr EXCEPT ![o] = 0] : o \in Objs}
(* This model's storage: at a new place exactly when more room is needed. *)
Placed == \A o \in Objs : Cardinality(set'[o]) > 0 => addr'[o] # 0
Next ==
  /\ Places
  /\ \E o \in Objs :
     \/ \E v \in Keys : Insert(o, {v}) /\ Op([op |-> "insert", o |-> o, v |-> v])
     \/ \E v \in Keys : Drop(o, {v}) /\ Op([op |-> "remove", o |-> o, v |-> v])
     \/ \E S \in SUBSET Keys : Insert(o, S) /\ Op([op |-> "insertMany", o |-> o, vals |-> Ordered(S), alt |-> Cardinality(S)])
     \/ \E S \in SUBSET Keys : Drop(o, S) /\ Op([op |-> "removeMany", o |-> o, vals |-> Ordered(S), alt |-> Cardinality(S)])
     \/ Clear(o) /\ Op([op |-> "clear", o |-> o])
     \/ \E n \in {1, Cardinality(Keys)} : Reserve(o, n) /\ Op([op |-> "reserve", o |-> o, n |-> n])
     \/ \E v \in Keys : Look /\ Op([op |-> "contains", o |-> o, v |-> v])
     \/ Fresh(o, {}) /\ addr'[o] = 0 /\ Op([op |-> "renew", o |-> o])
     \/ \E p \in Objs :
        \/ CopyAssign(o, p) /\ Op([op |-> "copyAssign", o |-> o, p |-> p])
        \/ o # p /\ MoveAssign(o, p) /\ addr'[p] = 0 /\ \E name \in {"moveAssign", "moveConstruct"} : Op([op |-> name, o |-> o, p |-> p])
        \/ Fresh(o, set[p]) /\ addr'[o] # addr[o] /\ Op([op |-> "copyConstruct", o |-> o, p |-> p])
        \/ o < p /\ Swap(o, p) /\ Op([op |-> "swap", o |-> o, p |-> p])
Spec == Init /\ [][Next]_<<vars, path>>
Bound == Len(path) < MaxDepth
View == <<set, room>>
Emit == Placed /\ PrintT("@" \o ToJson(path'))
Enough == \A o \in Objs : room[o] >= Cardinality(set[o])
Laws == \A o \in Objs, S \in SUBSET Keys : Cardinality(set[o] \cup S) = Cardinality(set[o]) + Added(o, S) /\ Cardinality(set[o] \ S) = Cardinality(set[o]) - Removed(o, S)
OneByOne == \A S \in SUBSET Keys : FoldSet(LAMBDA v, acc : acc \cup {v}, set[1], S) = set[1] \cup S
=============================================================================
