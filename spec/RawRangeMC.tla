---------------------------- MODULE RawRangeMC ------------------------------
EXTENDS RawRange, Json
CONSTANTS Vals, Cap, MaxDepth
VARIABLE path
Op(o) == path' = Append(path, o)
Lists(n) == UNION {[1..k -> Vals] : k \in 0..n}
Sets == {Sorted(S) : S \in SUBSET Vals}
Init == s = <<>> /\ path = <<>>
Next ==
  \/ \E vals \in Lists(2) : Assign(vals) /\ Op([op |-> "assign", vals |-> vals])
  \/ \E n \in 0..Cap : Resize(n, 0) /\ Op([op |-> "resize", n |-> n])
  \/ \E n \in 0..Cap : Resize(n, 1) /\ Op([op |-> "resizeTo", n |-> n, v |-> 1])
  \/ \E i \in 0..Len(s), vals \in Lists(2), o \in {"shiftUp", "ushiftUp", "insert"} : Insert(i, vals) /\ Op([op |-> o, i |-> i, vals |-> vals, alt |-> i % 2])
  \/ \E i \in 0..Len(s), v \in Vals : Insert(i, <<v>>) /\ Op([op |-> "emplace", i |-> i, v |-> v])
  \/ \E i \in 0..Len(s), n \in 0..Len(s), o \in {"shiftDown", "ushiftDown", "erase"} : (i < Len(s) \/ o # "erase") /\ Erase(i, n) /\ Op([op |-> o, i |-> i, n |-> n])
  \/ \E v \in Vals : Push(v) /\ Op([op |-> "push", v |-> v])
  \/ \E vals \in Lists(2) : s' = s \o vals /\ Op([op |-> "append", vals |-> vals, alt |-> Len(s) % 2])
  \/ Pop /\ Op([op |-> "pop"])
  \/ \E vals \in Sets, a \in {0, 1} : SetInsert(vals) /\ Op([op |-> "setInsertMany", vals |-> vals, alt |-> a])
  \/ \E vals \in Sets : SetRemove(vals) /\ Op([op |-> "setRemoveMany", vals |-> vals, alt |-> Len(s) % 2])
  \/ \E v \in Vals, a \in {0, 1} : SetInsert(<<v>>) /\ Op([op |-> "setInsert", v |-> v, alt |-> a])
  \/ \E v \in Vals : SetRemove(<<v>>) /\ Op([op |-> "setRemove", v |-> v])
  \/ \E v \in Vals : Ascending(s) /\ Look /\ Op([op |-> "find", v |-> v, desc |-> 0])
  \/ \E v \in Vals : Ascending(s) /\ Look /\ Op([op |-> "contains", v |-> v, desc |-> 0])
Spec == Init /\ [][Next]_<<s, path>>
Fits == Len(s) <= Cap
Bound == Fits /\ Len(path) < MaxDepth
View == s
Room == Len(s') <= Cap
Emit == Room /\ PrintT("@" \o ToJson(path'))
(* Laws the definitions must obey. *)
Laws ==
  /\ \A i \in 0..Len(s), vals \in Lists(2) : EraseRange(InsertRange(s, i, vals), i, Len(vals)) = s
  /\ \A i \in 0..Len(s) : Take(s, i) \o Drop(s, i) = s
  /\ Ascending(s) => Sorted(ToSet(s)) = s
  /\ \A n \in 0..Cap : Len(Resized(s, n, 0)) = n
=============================================================================
