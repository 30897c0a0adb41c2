----------------------------- MODULE SortedSet ------------------------------
(* Sorted arrays: each object is a set of keys. room is the capacity a user may count on (the largest of what was    *)
(* reserved and held in the present storage), addr where the storage is.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
CONSTANTS Objs, StorageRules
VARIABLES set, room, addr
vars == <<set, room, addr>>
Ordered(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Max2(a, b) == IF a > b THEN a ELSE b
KeepStorage(S) == StorageRules => \A q \in Objs \ S : addr'[q] = addr[q]
(* Room for n keys in object o. *)
Ensure(o, n) ==
  /\ room' = [room EXCEPT ![o] = Max2(@, n)]
  /\ StorageRules => /\ n <= room[o] => addr'[o] = addr[o]
                     /\ \A q \in Objs \ {o} : addr'[q] = addr[q]
Become(o, S) == set' = [set EXCEPT ![o] = S]
Change(o, S) == Become(o, S) /\ Ensure(o, Cardinality(S))
Added(o, S) == Cardinality(S \ set[o])
Removed(o, S) == Cardinality(S \cap set[o])
Insert(o, S) == Change(o, set[o] \cup S)
Drop(o, S) == Change(o, set[o] \ S)
Clear(o) == Change(o, {})
Reserve(o, n) == UNCHANGED set /\ Ensure(o, n)
Look == UNCHANGED <<set, room>> /\ KeepStorage({})
CopyAssign(o, p) == Change(o, set[p])
MoveAssign(o, p) ==
  IF o = p THEN (UNCHANGED set \/ Become(o, {})) /\ KeepStorage({o}) /\ room' = [room EXCEPT ![o] = Cardinality(set'[o])]
  ELSE /\ set' = [set EXCEPT ![o] = set[p], ![p] = {}]
       /\ room' = [room EXCEPT ![o] = room[p], ![p] = 0]
       /\ StorageRules => (addr'[o] = addr[p] /\ \A q \in Objs \ {o, p} : addr'[q] = addr[q])
Fresh(o, S) == Become(o, S) /\ KeepStorage({o}) /\ room' = [room EXCEPT ![o] = Cardinality(S)]
Swap(o, p) ==
  /\ set' = [set EXCEPT ![o] = set[p], ![p] = set[o]]
  /\ room' = [room EXCEPT ![o] = room[p], ![p] = room[o]]
  /\ (StorageRules /\ o # p) => addr' = [addr EXCEPT ![o] = addr[p], ![p] = addr[o]]
=============================================================================
