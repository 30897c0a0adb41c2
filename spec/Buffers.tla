------------------------------ MODULE Buffers -------------------------------
(* The buffers under the containers. A buffer object ("handle") refers to a block of storage of some capacity holding  *)
(* a sequence of values; how many is known to its user. The kinds of buffer differ in three ways: whether copying a    *)
(* handle shares the block or copies it, whether capacity is fixed, and whether a handle that was freed or moved from  *)
(* is an empty buffer or may only be assigned to.                                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS Handles
VARIABLES kind,     \* [fixed |-> 0 or the capacity, empties |-> BOOLEAN]
          ref,      \* handle -> its block, 0: may only be assigned to
          val, cap, \* of every block
          at        \* handle -> where its block is
vars == <<kind, ref, val, cap, at>>
Fixed == kind.fixed
IsFixed == Fixed > 0
Ids == 1..Cardinality(Handles)
Usable(h) == ref[h] # 0
Holders(k) == {h \in Handles : ref[h] = k}
(* h may be given another block without losing the one it has *)
Loose(h) == IF ~Usable(h) \/ IsFixed THEN TRUE ELSE Holders(ref[h]) # {h} \/ (kind.empties /\ cap[ref[h]] = 0 /\ at[h] = 0)
NewId(h) == CHOOSE k \in Ids : \A g \in Handles \ {h} : ref[g] # k
Take(x, n) == SubSeq(x, 1, IF n < Len(x) THEN n ELSE Len(x))
Drop(x, n) == SubSeq(x, n + 1, Len(x))
Insertion(x, i, vs) == Take(x, i) \o vs \o Drop(x, i)
Resized(x, n, v) == IF n <= Len(x) THEN Take(x, n) ELSE x \o [k \in 1..(n - Len(x)) |-> v]

KeepAt(S) == \A g \in S : ref[g] # 0 /\ ref'[g] # 0 => at'[g] = at[g]
Same == UNCHANGED <<kind, ref, val, cap>> /\ KeepAt(Handles)
(* The block of h stays where it is and holds v. *)
Put(h, v) == UNCHANGED <<kind, ref, cap>> /\ KeepAt(Handles) /\ val' = [val EXCEPT ![ref[h]] = v]
(* h gets other storage of capacity c for its block; other handles of the block are left with storage that is gone. *)
Renew(h, v, c) ==
  /\ kind' = kind /\ val' = [val EXCEPT ![ref[h]] = v] /\ cap' = [cap EXCEPT ![ref[h]] = c]
  /\ ref' = [g \in Handles |-> IF g # h /\ ref[g] = ref[h] THEN 0 ELSE ref[g]]
  /\ KeepAt(Handles \ {h})
(* Contents v, with at least n capacity. *)
Room(h, v, n) == IF n <= cap[ref[h]] THEN Put(h, v) ELSE ~IsFixed /\ \E c \in {cap'[ref[h]]} : c >= n /\ Renew(h, v, c)
NoRoom(h, n) == IsFixed /\ n > cap[ref[h]]

Fresh(h) ==
  /\ Loose(h) /\ kind' = kind
  /\ LET k == NewId(h) IN ref' = [ref EXCEPT ![h] = k] /\ val' = [val EXCEPT ![k] = <<>>] /\ cap' = [cap EXCEPT ![k] = Fixed]
  /\ KeepAt(Handles \ {h})
Copy(h, g) ==
  /\ Usable(g) /\ kind' = kind
  /\ IF IsFixed
       THEN LET k == NewId(h) IN ref' = [ref EXCEPT ![h] = k] /\ val' = [val EXCEPT ![k] = val[ref[g]]] /\ cap' = [cap EXCEPT ![k] = Fixed]
       ELSE (IF ref[h] = ref[g] THEN TRUE ELSE Loose(h)) /\ ref' = [ref EXCEPT ![h] = ref[g]] /\ UNCHANGED <<val, cap>> /\ at'[h] = at[g]
  /\ KeepAt(Handles \ {h})
(* g hands over its block. *)
Move(h, g) ==
  /\ Usable(g) /\ h # g
  /\ IF IsFixed THEN Copy(h, g)
     ELSE /\ Loose(h) /\ kind' = kind /\ at'[h] = at[g]
          /\ LET k == CHOOSE k \in Ids : \A q \in Handles \ {h} : ref[q] # k
             IN IF kind.empties
                  THEN ref' = [ref EXCEPT ![h] = ref[g], ![g] = k] /\ val' = [val EXCEPT ![k] = <<>>] /\ cap' = [cap EXCEPT ![k] = 0]
                  ELSE ref' = [ref EXCEPT ![h] = ref[g], ![g] = 0] /\ UNCHANGED <<val, cap>>
          /\ KeepAt(Handles \ {h, g})
(* The values are destroyed and the storage released. *)
Free(h) ==
  /\ Usable(h)
  /\ IF IsFixed THEN Put(h, <<>>)
     ELSE /\ kind' = kind /\ val' = [val EXCEPT ![ref[h]] = <<>>] /\ cap' = [cap EXCEPT ![ref[h]] = 0]
          /\ ref' = [g \in Handles |-> IF ref[g] = ref[h] /\ (g # h \/ ~kind.empties) THEN 0 ELSE ref[g]]
          /\ KeepAt(Handles \ {h})

SetCapacity(h, n) == Usable(h) /\ IF IsFixed THEN n <= Fixed /\ Put(h, Take(val[ref[h]], n)) ELSE Renew(h, Take(val[ref[h]], n), n)
SetCapacityRefused(h, n) == Usable(h) /\ NoRoom(h, n) /\ Same
Reserve(h, n) == Usable(h) /\ Room(h, val[ref[h]], n)
Become(h, v) == Usable(h) /\ Room(h, v, Len(v))
Refused(h, n) == Usable(h) /\ NoRoom(h, n) /\ Same
Resize(h, n, v) == Become(h, Resized(val[ref[h]], n, v))
Push(h, v) == Become(h, Append(val[ref[h]], v))
Insert(h, i, vs) == i <= Len(val[ref[h]]) /\ Become(h, Insertion(val[ref[h]], i, vs))
Pop(h) == Usable(h) /\ Len(val[ref[h]]) > 0 /\ Become(h, Front(val[ref[h]]))
Erase(h, i) == Usable(h) /\ i < Len(val[ref[h]]) /\ Become(h, Take(val[ref[h]], i) \o Drop(val[ref[h]], i + 1))
Write(h, i, v) == Usable(h) /\ i < Len(val[ref[h]]) /\ Put(h, [val[ref[h]] EXCEPT ![i + 1] = v])
(* copyInto: the values only; the source and its storage stay *)
CopyValues(h, g) == Usable(g) /\ ref[h] # ref[g] /\ Become(h, val[ref[g]])

Type == /\ ref \in [Handles -> 0..Cardinality(Handles)]
        /\ \A h \in Handles : Usable(h) => Len(val[ref[h]]) <= cap[ref[h]] /\ (IsFixed => cap[ref[h]] = Fixed /\ Holders(ref[h]) = {h})
(* Handles of one block see one storage, different blocks of some capacity are at different places. *)
Places == \A g, h \in Handles : Usable(g) /\ Usable(h) =>
            /\ ref[g] = ref[h] => at[g] = at[h]
            /\ ref[g] # ref[h] /\ cap[ref[g]] > 0 /\ cap[ref[h]] > 0 => at[g] # at[h]
=============================================================================
